#!/usr/bin/env python3
"""The printed form of every construct, written once as a small grammar, and turned into
  pr_K(x, t)   the trace t continued with the printed form of x (G01)
and into the contracts of unit codegen. Writes codegen_defs.rs and codegen_gen.spec.

 'text'       these bytes           ~    a gap: a blank in pretty output only
 |            a new line            > <  one level of indentation more, less
 {K e}        the printed form K of e
 {N e}        expression e, in parentheses if it binds weaker than N
 {(N) e}      the same, N any specification expression
 [c ? A : B]  A if c, else B
"""
import os, re
D = os.path.dirname(os.path.abspath(__file__))
A = "<'ast>"

EXPR = [
 ('Void', ''),
 ('This(_)', "'this'"),
 ('Identifier(n)', '{str n}'),
 ('Literal(l)', '{lit l}'),
 ('Sequence(x)', '{elist x.body}'),
 ('Array(x)', "'[' {elist x.body} ']'"),
 ('Member(x)', "[plain_int(x.object.item) ? '(' {expr x.object} ')' : {19 x.object}] '.' {str x.property.item}"),
 ('ComputedMember(x)', "{19 x.object} '[' {expr x.property} ']'"),
 ('MetaProperty(x)', "{str x.meta.item} '.' {str x.property.item}"),
 ('Call(x)', "{17 x.callee} '(' {elist x.arguments} ')'"),
 ('Binary(x)', "{(left_level(x.operator)) x.left} [space_left(x) ? ' ' : ~] {op x.operator} [space_right(x) ? ' ' : ~] {(right_level(x)) x.right}"),
 ('Prefix(x)', "{op x.operator} [x.operator == OperatorKind::New ? ' ' {newop x.operand} : [space_prefix(x) ? ' ' : ] {15 x.operand}]"),
 ('Postfix(x)', '{17 x.operand} {op x.operator}'),
 ('Conditional(x)', "{5 x.test} ~ '?' ~ {1 x.consequent} ~ ':' ~ {1 x.alternate}"),
 ('Template(x)', '{tpl x}'),
 ('TaggedTemplate(x)', '{17 x.tag} {tpl x.quasi.item}'),
 ('Spread(x)', "'...' {1 x.argument}"),
 ('Arrow(x)', "{params x.params} ~ '=>' ~ {arrow x.body}"),
 ('Object(x)', "{object x.body}"),
 ('Function(x)', "'function' {func x}"),
 ('Class(x)', "'class' {class x}"),
]
STMT = [
 ('Empty', ''), ('Debugger', "'debugger'"),
 ('Expression(x)', "[bare(lead(x.item)) ? {expr x} : '(' {expr x} ')'] ';'"),
 ('Declaration(x)', "{declaration x} ';'"),
 ('Return(x)', "[x.value is Some ? 'return ' {oexpr x.value} ';' : 'return;']"),
 ('Break(x)', "[x.label is Some ? 'break ' {str x.label->Some_0.item} ';' : 'break;']"),
 ('Continue(x)', "[x.label is Some ? 'continue ' {str x.label->Some_0.item} ';' : 'continue;']"),
 ('Throw(x)', "'throw ' {expr x.value} ';'"),
 ('If(x)', "'if' ~ '(' {expr x.test} ')' ~ {branch x.consequent} {else x}"),
 ('While(x)', "'while' ~ '(' {expr x.test} ')' ~ {branch x.body}"),
 ('Do(x)', "'do' [block(x.body) ? ~ : ' '] {branch x.body} [open_ended(x.body.item) ? ';' : ] 'while' ~ '(' {expr x.test} ')'"),
 ('For(x)', "'for' ~ '(' {oforinit x.init} ';' ~ {oexpr x.test} ';' ~ {oexpr x.update} ')' ~ {branch x.body}"),
 ('ForIn(x)', "'for' ~ '(' {forleft x.left.item} ' in ' {expr x.right} ')' ~ {branch x.body}"),
 ('ForOf(x)', "'for' ~ '(' {forinit x.left.item} ' of ' {expr x.right} ')' ~ {branch x.body}"),
 ('Try(x)', "'try' ~ {block x.block.item} {ocatch x.handler} {ofinally x.finalizer}"),
 ('Block(x)', '{block x}'),
 ('Labeled(x)', "{str x.label} ':' ~ {branch x.body}"),
 ('Function(x)', "'function' {func x}"),
 ('Class(x)', "'class' {class x}"),
 ('Switch(x)', "'switch' ~ '(' {expr x.discriminant} ')' {cblock x.cases.item}"),
 ('Import(x)', "'import ' {import x}"),
]
KINDS = [  # name, type, rank, scrutinee, alternatives
 ('expr', "Expression<'ast>", 0, 'x0', [('Expression::' + p, s) for p, s in EXPR]),
 ('newop', "ExpressionNode<'ast>", 3, 'x0.item', [
   ('Expression::Call(c)', "{newc c.callee} '(' {elist c.arguments} ')'"), ('_', '{newc x0}')]),
 ('newc', "ExpressionNode<'ast>", 2, None, "[tag_root(x0).item is Call ? '(' {expr x0} ')' : {17 x0}]"),
 ('tpl', "TemplateLiteral<'ast>", 0, None, "'`' {quasis x0.quasis x0.expressions} '`'"),
 ('params', "PatternList<'ast>", 3, 'x0', [
   ('List::Cons(h, tl) if *tl is Nil && h.item is Identifier', '{pat h.item}'), ('_', "'(' {pats x0} ')'")]),
 ('arrow', "ArrowBody<'ast>", 0, 'x0', [
   ('ArrowBody::Expression(k)', "[lead(k.item) is Object ? '(' {expr k} ')' : {1 k}]"), ('ArrowBody::Block(b)', '{block b.item}')]),
 ('object', "NodeList<'ast, Property<'ast>>", 1, 'x0', [
   ('List::Nil', "'{}'"), ('List::Cons(h, tl)', "'{' > | {prop (*h).item} {props *tl} < | '}'")]),
 ('props', "NodeList<'ast, Property<'ast>>", 0, 'x0', [('List::Nil', ''), ('List::Cons(h, tl)', "',' | {prop (*h).item} {props *tl}")]),
 ('prop', "Property<'ast>", 0, 'x0', [
   ('Property::Shorthand(n)', '{str n}'), ('Property::Literal { key, value }', "{key key.item} ':' ~ {1 value}"),
   ('Property::Method { key, value }', '{key key.item} {func value.item}'), ('Property::Spread { argument }', "'...' {1 argument}")]),
 ('key', "PropertyKey<'ast>", 0, 'x0', [
   ('PropertyKey::Computed(k)', "'[' {expr k} ']'"), ('PropertyKey::Literal(n)', '{str n}'), ('PropertyKey::Binary(n)', '{str n}')]),
 ('func', "Function<'ast, N>", 0, None, "[x0.generator ? '*' : ] {name x0.name} '(' {pats x0.params} ')' ~ {block x0.body.item}"),
 ('class', "Class<'ast, N>", 0, None, "{name x0.name} [x0.extends is Some ? ' extends ' {17 x0.extends->Some_0} : ] ~ {mblock x0.body.item}"),
 ('member', "ClassMember<'ast>", 0, 'x0', [
   ('ClassMember::Error', ''),
   ('ClassMember::Method { is_static, key, kind, value }', "[is_static ? 'static ' : ] [kind is Get ? 'get ' : [kind is Set ? 'set ' : ]] {key key.item} {func value.item}"),
   ('ClassMember::Literal { is_static, key, value }', "[is_static ? 'static ' : ] {key key.item} ~ '=' ~ {1 value} ';'")]),
 ('pat', "Pattern<'ast>", 0, 'x0', [
   ('Pattern::Void', ''), ('Pattern::Identifier(n)', '{str n}'),
   ('Pattern::ObjectPattern { properties }', "'{' {bprops properties} '}'"), ('Pattern::ArrayPattern { elements }', "'[' {pats elements} ']'"),
   ('Pattern::RestElement { argument }', "'...' {str argument.item}"),
   ('Pattern::AssignmentPattern { left, right }', "{pat left.item} ~ '=' ~ {1 right}")]),
 ('declaration', "DeclarationStatement<'ast>", 0, None, "[x0.kind is Var ? 'var ' : [x0.kind is Let ? 'let ' : 'const ']] {decls x0.declarators}"),
 ('declr', "Declarator<'ast>", 0, None, "{pat x0.id.item} [x0.init is Some ? ~ '=' ~ {1 x0.init->Some_0} : ]"),
 ('stmt', "Statement<'ast>", 0, 'x0', [('Statement::' + p, s) for p, s in STMT]),
 ('branch', "StatementNode<'ast>", 1, None, "[x0.item is Empty ? ';' : {stmt x0}]"),
 ('else', "IfStatement<'ast>", 0, 'x0.alternate', [
   ('None', ''), ('Some(y)', "[open_ended(x0.consequent.item) ? ';' : ] [block(x0.consequent) ? ~ : ' '] 'else' [block(y) ? ~ : ' '] {branch y}")]),
 ('forinit', "ForInit<'ast>", 0, 'x0', [
   ('ForInit::Declaration(d)', '{declaration d}'), ('ForInit::Expression(k)', "[heads_in(k.item) ? '(' {expr k} ')' : {expr k}]")]),
 ('forleft', "ForInit<'ast>", 1, 'x0', [('ForInit::Expression(k)', '{12 k}'), ('_', '{forinit x0}')]),
 ('catch', "CatchClause<'ast>", 0, None, "~ 'catch' ~ '(' {pat x0.param.item} ')' ~ {block x0.body.item}"),
 ('case', "SwitchCase<'ast>", 0, None, "[x0.test is Some ? 'case ' {expr x0.test->Some_0} ':' : 'default:'] {lines x0.consequent}"),
 ('block', "Block<'ast, Statement<'ast>>", 0, None, "'{' {lines x0.body} '}'"),
 ('mblock', "Block<'ast, ClassMember<'ast>>", 0, None, "'{' {mlines x0.body} '}'"),
 ('cblock', "Block<'ast, SwitchCase<'ast>>", 0, None, "'{' {clines x0.body} '}'"),
]
def opt(name, form, ty):
    KINDS.append((name, f"Option<{ty}>", 0, 'x0', [('None', ''), ('Some(y)', form)]))
opt('oexpr', '{expr y}', "ExpressionNode<'ast>"); opt('oforinit', '{forinit y.item}', "Node<'ast, ForInit<'ast>>")
opt('ocatch', '{catch y.item}', "Node<'ast, CatchClause<'ast>>"); opt('ofinally', "~ 'finally' ~ {block y.item}", "BlockNode<'ast, Statement<'ast>>")
opt('ostmt', '{stmt y}', "StatementNode<'ast>")
def commas(name, form, ty):
    """a list with commas in between; name_t: what follows the first"""
    KINDS.append((name, f"NodeList<'ast, {ty}>", 2, 'x0', [('List::Nil', ''), ('List::Cons(h, tl)', form + ' {%s_t *tl}' % name)]))
    KINDS.append((name + '_t', f"NodeList<'ast, {ty}>", 1, 'x0', [('List::Nil', ''), ('List::Cons(h, tl)', "',' ~ " + form + ' {%s_t *tl}' % name)]))
commas('elist', '{1 (*h)}', "Expression<'ast>"); commas('pats', '{pat (*h).item}', "Pattern<'ast>"); commas('bprops', '{prop (*h).item}', "Property<'ast>")
commas('decls', '{declr (*h).item}', "Declarator<'ast>"); commas('imps', '{imp (*h).item}', "ForImportSpecifier<'ast>")
def lines(name, form, ty, oe):
    """one per line, a semicolon behind those that are open ended; name_t: what follows p"""
    KINDS.append((name, f"NodeList<'ast, {ty}>", 2, 'x0', [('List::Nil', ''), ('List::Cons(h, tl)', '> | ' + form + ' {%s_t *tl %s} < |' % (name, '*h'))]))
    KINDS.append((name + '_t', f"NodeList<'ast, {ty}>, p: Node<'ast, {ty}>", 1, 'x0', [('List::Nil', ''), ('List::Cons(h, tl)', f"[{oe} ? ';' : ] | " + form + ' {%s_t *tl %s}' % (name, '*h'))]))
lines('lines', '{stmt *h}', "Statement<'ast>", 'open_ended(p.item)'); lines('mlines', '{member (*h).item}', "ClassMember<'ast>", 'false')
lines('clines', '{case (*h).item}', "SwitchCase<'ast>", 'case_open(p.item)')
KINDS += [
 ('quasis', "NodeList<'ast, &'ast str>, es: ExpressionList<'ast>", 2, 'x0', [
   ('List::Nil', ''), ('List::Cons(q, tl)', '{str (*q).item} {quasis_t *tl es}')]),
 ('quasis_t', "NodeList<'ast, &'ast str>, es: ExpressionList<'ast>", 1, '(x0, es)', [
   ('(List::Cons(q, tl), List::Cons(e, etl))', "'${' ~ {expr *e} ~ '}' {str (*q).item} {quasis_t *tl *etl}"), ('_', '')]),
 ('imp', "ForImportSpecifier<'ast>", 0, 'x0', [
   ('ForImportSpecifier::ImportDefaultSpecifier(s)', '{str s.local.item}'), ('ForImportSpecifier::ImportNamespaceSpecifier(s)', "'* as ' {str s.local.item}"),
   ('ForImportSpecifier::ImportSpecifier(s)', "{str s.imported.item} [sb(s.imported.item) == sb(s.local.item) ? : ' as ' {str s.local.item}]")]),
 ('import', "ImportDeclaration<'ast>", 0, None,
   "[x0.specifiers is Nil ? : {imps keep(x0.specifiers,false)} [keep(x0.specifiers, true) is Nil ? : [keep(x0.specifiers, false) is Nil ? : ','] '{' {imps keep(x0.specifiers,true)} '}'] ' from '] {quoted x0.source}"),
 ('module', "StatementList<'ast>", 3, 'x0', [('List::Nil', ''), ('List::Cons(h, tl)', '{stmt *h} {lines_t *tl *h}')]),
 ('lit', "Literal<'ast>", 0, 'x0', [('Literal::Undefined', "'undefined'"), ('Literal::Null', "'null'"), ('Literal::True', "'true'"), ('Literal::False', "'false'"),
   ('Literal::Number(s)', '{str s}'), ('Literal::Binary(s)', '{str s}'), ('Literal::String(s)', '{str s}'), ('Literal::RegEx(s)', '{str s}')]),
]
NAMES = {k[0]: k for k in KINDS}

# --- the grammar
def parse(s):
    i = 0
    def seq(stop):
        nonlocal i
        out = []
        while True:
            while i < len(s) and s[i] == ' ': i += 1
            if i >= len(s) or s[i] in stop: return out
            c = s[i]
            if c == "'":
                j = s.index("'", i + 1)
                out += [('b', ord(ch)) for ch in s[i + 1:j]]; i = j + 1
            elif c in '~|><': out.append((c,)); i += 1
            elif c == '{':
                j = s.index('}', i)
                body = s[i + 1:j]; i = j + 1
                if body[0] == '(':
                    d, k = 0, 0
                    for k, ch in enumerate(body):
                        d += (ch == '(') - (ch == ')')
                        if d == 0: break
                    out.append(('sub', body[1:k], body[k + 1:].strip()))
                else:
                    k, e = body.split(' ', 1)
                    out.append(('sub', k, e) if k.isdigit() else ('k', k, e.split(' ')))
            elif c == '[':
                j = s.index(' ?', i)
                cond = s[i + 1:j]; i = j + 2
                a = seq(':'); i += 1
                b = seq(']'); i += 1
                out.append(('if', cond, a, b))
            else: raise Exception(f'{s!r} at {i}')
    return seq('')

def acc(steps, t='t'):
    for s in steps:
        if s[0] == 'b': t = f'{t}.push(Out::B({s[1]}u8))'
        elif s[0] in '~|><': t = f'{t}.push(Out::{dict(zip("~|><", ("Gap", "Line", "In", "De")))[s[0]]})'
        elif s[0] == 'sub': t = f'pr_sub(({s[2]}).item, {s[1]}, {t})'
        elif s[0] == 'k':
            k, a = s[1], s[2]
            if k == 'str': t = f'wr({t}, sb({a[0]}))'
            elif k == 'op': t = f'wr({t}, spelling({a[0]}))'
            elif k == 'name': t = f'{a[0]}.pn({t})'
            elif k == 'quoted': t = f"wr({t}.push(Out::B(quote(sb({a[0]})))), sb({a[0]})).push(Out::B(quote(sb({a[0]}))))"
            else:
                if k not in NAMES: raise Exception(k)
                if k in ('expr', 'stmt'): a = [f'({a[0]}).item']
                t = f"pr_{k}({', '.join(a)}, {t})"
        elif s[0] == 'if':
            t = f'({{ let t = {t}; if {s[1]} {{ {acc(s[2])} }} else {{ {acc(s[3])} }} }})'
    return t

def defs():
    o = ['// written by gen_codegen.py']
    o.append("""pub open spec fn pr_sub<'ast>(x0: Expression<'ast>, n: int, t: Seq<Out>) -> Seq<Out>
    decreases x0, 1int
{
    if level(x0) < n { pr_expr(x0, t.push(Out::B(40u8))).push(Out::B(41u8)) } else { pr_expr(x0, t) }
}""")
    for name, ty, rank, scrut, alts in KINDS:
        g = "<'ast, N: PrName>" if ', N>' in ty else "<'ast>"
        body = acc(parse(alts)) if scrut is None else 'match %s {\n%s    }' % (scrut, ''.join(f'        {p} => {acc(parse(f))},\n' for p, f in alts))
        o.append(f"pub open spec fn pr_{name}{g}(x0: {ty}, t: Seq<Out>) -> Seq<Out>\n    decreases {'es' if name.startswith('quasis') else 'x0'}, {rank}int\n{{\n    {body}\n}}")
    return '\n'.join(o) + '\n'
open(f'{D}/codegen_gen.rs', 'w').write(defs())

# --- the operators: variant, spelling, level, prefix, infix, assignment, category
def op(v, sp, lv, pre=False, inf=True, asg=False, cat='Safe'): return (v, sp, lv, pre, inf, asg, cat)
OPS = [op('FatArrow', '=>', 18), op('New', 'new', 17, True, False, cat='Word'), op('Increment', '++', 16, True, False, cat='Plus'), op('Decrement', '--', 16, True, False, cat='Minus'),
  op('LogicalNot', '!', 15, True, False), op('BitwiseNot', '~', 15, True, False), op('Typeof', 'typeof', 15, True, False, cat='Word'), op('Void', 'void', 15, True, False, cat='Word'),
  op('Delete', 'delete', 15, True, False, cat='Word'), op('Multiplication', '*', 14), op('Division', '/', 14), op('Remainder', '%', 14), op('Exponent', '**', 14),
  op('Addition', '+', 13, True, cat='Plus'), op('Subtraction', '-', 13, True, cat='Minus'), op('BitShiftLeft', '<<', 12), op('BitShiftRight', '>>', 12), op('UBitShiftRight', '>>>', 12),
  op('Lesser', '<', 11), op('LesserEquals', '<=', 11), op('Greater', '>', 11), op('GreaterEquals', '>=', 11), op('Instanceof', 'instanceof', 11, cat='Word'), op('In', 'in', 11, cat='Word'),
  op('StrictEquality', '===', 10), op('StrictInequality', '!==', 10), op('Equality', '==', 10), op('Inequality', '!=', 10), op('BitwiseAnd', '&', 9), op('BitwiseXor', '^', 8),
  op('BitwiseOr', '|', 7), op('LogicalAnd', '&&', 6), op('LogicalOr', '||', 5), op('Conditional', '?', 4), op('Assign', '=', 3, asg=True)]
OPS += [op(v, sp, 3, asg=True) for v, sp in [('AddAssign', '+='), ('SubtractAssign', '-='), ('ExponentAssign', '**='), ('MultiplyAssign', '*='), ('DivideAssign', '/='), ('RemainderAssign', '%='),
  ('BSLAssign', '<<='), ('BSRAssign', '>>='), ('UBSRAssign', '>>>='), ('BitAndAssign', '&='), ('BitXorAssign', '^='), ('BitOrAssign', '|=')]]
OPS += [op('Spread', '...', 1, True, False)]
def optab():
    o = ['// written by gen_codegen.py']
    def tab(name, ty, f):
        o.append(f"pub open spec fn {name}(op: OperatorKind) -> {ty} {{ match op {{ {' '.join(f'OperatorKind::{x[0]} => {f(x)},' for x in OPS)} }} }}")
    tab('spelling', 'Seq<u8>', lambda x: 'seq![' + ', '.join(f'{ord(c)}u8' for c in x[1]) + ']')
    tab('op_level', 'int', lambda x: f'{x[2]}int')
    for i, n in ((3, 'is_prefix'), (4, 'is_infix'), (5, 'is_assignment')): tab(n, 'bool', lambda x: str(x[i]).lower())
    tab('cat', 'OperatorCategory', lambda x: f'OperatorCategory::{x[6]}')
    o.append(f"pub open spec fn op_of(token: Token) -> Option<OperatorKind> {{ match token {{ {' '.join(f'Token::Operator{x[0]} => Some(OperatorKind::{x[0]}),' for x in OPS)} _ => None }} }}")
    return '\n'.join(o) + '\n'
open(f'{D}/operator_tables.rs', 'w').write(optab())

# --- the contracts
W = "!b.pend"
IMPLS = [  # impl, printed form, starts with punctuation, what is known of the end
 ('Expression', 'pr_expr(*self, t)', 'false', W), ('Literal', 'pr_lit(*self, t)', 'false', W), ('OperatorKind', 'wr(t, spelling(*self))', '!(cat(*self) is Word)', '!b.pend && (cat(*self) is Word || pun(b.last))'),
 ('PropertyKey', 'pr_key(*self, t)', 'false', W), ('Property', 'pr_prop(*self, t)', 'false', W), ('Pattern', 'pr_pat(*self, t)', 'false', W),
 ('TemplateLiteral', 'pr_tpl(*self, t)', 'false', W), ('ArrowBody', 'pr_arrow(*self, t)', 'false', W),
 ('Statement', 'pr_stmt(*self, t)', '*self is Block', '!b.pend && (open_ended(*self) || pun(b.last) || (*self is Empty && b == a))'),
 ('DeclarationKind', "(if *self is Var { %s } else if *self is Let { %s } else { %s })" % tuple(acc(parse(f"'{k} '")) for k in ('var', 'let', 'const')), 'false', W),
 ('Declarator', 'pr_declr(*self, t)', 'false', W), ('DeclarationStatement', 'pr_declaration(*self, t)', 'false', W), ('ForInit', 'pr_forinit(*self, t)', 'false', W),
 ('SwitchCase', 'pr_case(*self, t)', 'false', 'case_open(*self) || (!b.pend && pun(b.last))'),
 ('ForImportSpecifier', 'pr_imp(*self, t)', 'false', W), ('ImportDeclaration', 'pr_import(*self, %s)' % 't'.join(['', '']) or '', 'false', W),
 ('EmptyName', 't', 'false', 'b == a'), ('MandatoryName', 'self.pn(t)', 'false', W), ('OptionalName', 'self.pn(t)', 'false', 'true'),
 ('ClassMember', 'pr_member(*self, t)', 'false', '!b.pend && pun(b.last)'), ('&str', 'wr(t, sb(*self))', 'false', W),
]
BL = '!b.pend && b.last == 125'
for k, ty in (('block', 'Statement'), ('mblock', 'ClassMember'), ('cblock', 'SwitchCase')): IMPLS.append((f'Block<{ty}>', f'pr_{k}(*self, t)', 'true', BL))
for n in ('EmptyName', 'OptionalName', 'MandatoryName'):
    IMPLS.append((f'Function<{n}>', 'pr_func(*self, %s)' % ('t' if n == 'EmptyName' else acc(parse("'function'"))), 'false', BL))
    if n != 'EmptyName': IMPLS.append((f'Class<{n}>', 'pr_class(*self, %s)' % acc(parse("'class'")), 'false', BL))
def form(table, name):
    return acc(parse(dict((re.split(r'\(', p)[0], f) for p, f in table)[name])).replace('x.', 'self.').replace('(x)', '(*self)').replace('(x,', '(*self,')
def own(ty): return re.sub(r'[\W_]', '', ty)
for tab, suffix in ((EXPR, 'Expression'), (STMT, 'Statement')):
    for p, f in tab:
        v = p.split('(')[0]
        n = v + suffix
        if v in ('Void', 'This', 'Identifier', 'Literal', 'Function', 'Class', 'Template', 'Empty', 'Debugger', 'Expression', 'Declaration', 'Import', 'Block'): continue
        if v == 'MetaProperty': n = 'MetaPropertyExpression'
        if suffix == 'Expression': end = W
        else:
            end = {'Return': '!b.pend && pun(b.last)', 'Break': '!b.pend && pun(b.last)', 'Continue': '!b.pend && pun(b.last)', 'Throw': '!b.pend && pun(b.last)'}.get(v, f'!b.pend && (open_ended(Statement::{v}(*self)) || pun(b.last))')
        IMPLS.append((n, f'pr_{"expr" if suffix == "Expression" else "stmt"}({suffix}::{v}(*self), t)', 'false', end))
IMPLS = [(n, f'pr_import(*self, t)' if n == 'ImportDeclaration' else f, a, b) for n, f, a, b in IMPLS]
SPEC = {n: (f, a, b) for n, f, a, b in IMPLS}
# the keyword of an import is written by the declaration itself
SPEC['ImportDeclaration'] = ('pr_stmt(Statement::Import(*self), t)', 'false', W)
NODES = ['Expression', 'Statement', 'Pattern', 'Property', 'PropertyKey', 'ClassMember', 'Declarator', 'SwitchCase', 'ForInit', 'ForImportSpecifier', 'Function<EmptyName>', 'TemplateLiteral',
  'Block<Statement>', 'Block<ClassMember>', 'Block<SwitchCase>', '&str']
OPTS = ['Node<ForInit>', 'ExpressionNode', 'StatementNode']
def impl(n):
    """printed form, start, end of any type"""
    if n in SPEC: return SPEC[n]
    m = re.match(r'(Node|Option)<(.*)>$', n)
    inner = {'ExpressionNode': 'Node<Expression>', 'StatementNode': 'Node<Statement>'}.get(m.group(2), m.group(2))
    f, a, b = impl(inner)
    if m.group(1) == 'Node':
        return tuple(x.replace('*self', 'self.item').replace('self.pn', 'self.item.pn') for x in (f, a, b))
    y = lambda x: re.sub(r'\bself\b', '(*self)->Some_0', x.replace('self.item', '((*self)->Some_0).item'))
    y = lambda x: x.replace('self.item', 'y.item')
    return (f'(match *self {{ Some(y) => {y(f)}, None => t }})', f'(match *self {{ Some(y) => {y(a)}, None => false }})', f'(match *self {{ Some(y) => {y(b)}, None => b == a }})')
OE = {'Statement': 'open_ended(*self)', 'SwitchCase': 'case_open(*self)', 'Node<Statement>': 'open_ended(self.item)', 'Node<SwitchCase>': 'case_open(self.item)',
      'Option<StatementNode>': '(match *self { Some(y) => open_ended(y.item), None => false })'}
LISTS = [('elist', 'Expression'), ('pats', 'Pattern'), ('bprops', 'Property'), ('decls', 'Declarator'), ('imps', 'ForImportSpecifier')]
BLOCKS = [('lines', 'Statement', 'open_ended'), ('mlines', 'ClassMember', 'never_open'), ('clines', 'SwitchCase', 'case_open')]
def ty(n):
    n = re.sub(r"\b(Expression|Statement|Pattern|Property|PropertyKey|ClassMember|Declarator|SwitchCase|ForInit|ForImportSpecifier|TemplateLiteral|ExpressionNode|StatementNode)\b(?!<)", r"\1<'ast>", n)
    return re.sub(r'\b(Node|Block|Function)<', r"\1<'ast, ", n).replace('&str', "&'ast str")
def spec():
    o = ['//! written by gen_codegen.py']
    T = "spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> %s spec fn first ( & self ) -> bool %s spec fn fin ( & self , a : Mon , b : Mon ) -> bool %s"
    o.append('@opt trait ToCode ' + T % (';', ';', ';'))
    o.append('@opt trait VxOpen spec fn oe ( & self ) -> bool ;')
    o.append('@fn VxOpen::is_open_ended -> r\n    ensures [G01,G02] r == self.oe()')
    o.append('@fn ToCode::to_code\n    requires old($1).wf()\n    requires [G02] old($1).mon().pend ==> self.first()\n    ensures final($1).wf(), final($1).dep() == old($1).dep()\n'
             '    ensures [G01] final($1).out() == self.pr(old($1).out())\n    ensures [G02] self.fin(old($1).mon(), final($1).mon())')
    allimpls = list(SPEC) + [f'Node<{n}>' for n in NODES] + [f'Option<{n}>' for n in OPTS]
    for n in allimpls:
        f, a, b = impl(n)
        o.append(f'@opt impl ToCode<G>@{n} ' + ('open ' + T.replace(' spec', ' open spec')) % ('{ %s }' % f, '{ %s }' % a, '{ %s }' % b))
        o.append(f'@opt impl VxOpen@{n} open spec fn oe ( & self ) -> bool {{ {OE.get(n, "false")} }}')
    o.append("@mono ToCode<G>@Node<T> => T = " + '; '.join(ty(n) for n in NODES))
    o.append("@mono VxOpen@Node<T> => T = " + '; '.join(ty(n) for n in NODES))
    o.append("@mono ToCode<G>@Option<T> => T = " + '; '.join(ty(n) for n in OPTS))
    o.append("@mono VxOpen@Option<T> => T = " + '; '.join(ty(n) for n in OPTS))
    for tr in ('ToCode<G>', 'VxOpen'):
        o.append(f"@mono {tr}@Block<T> => T = Statement<'ast>; ClassMember<'ast>; SwitchCase<'ast>")
        o.append(f"@mono {tr}@Function<N> => N = EmptyName; OptionalName<'ast>; MandatoryName<'ast>")
        o.append(f"@mono {tr}@Class<N> => N = OptionalName<'ast>; MandatoryName<'ast>")
    o.append("@lift Generator::write_list on List<'ast, Node<'ast, T>> T = " + '; '.join(t + "<'ast>" for k, t in LISTS if k != 'elist'))
    o.append("@lift Generator::write_block on List<'ast, Node<'ast, T>> T = " + '; '.join(t + "<'ast>" for k, t, _ in BLOCKS))
    o.append("@opt trait Vx_write_list spec fn pl ( & self , t : Seq<Out> ) -> Seq<Out> ;")
    o.append("@opt trait Vx_write_block spec fn pl ( & self , t : Seq<Out> ) -> Seq<Out> ; spec fn lfin ( & self , a : Mon , b : Mon ) -> bool ;")
    pre = '    requires old($1).wf()%s\n    requires [G02] !old($1).mon().pend%s\n    ensures final($1).wf(), final($1).dep() == old($1).dep()\n    ensures [G01] final($1).out() == self.pl(old($1).out())\n    ensures [G02] %s\n'
    o.append('@fn Vx_write_list::write_list\n' + pre % ('', '', '!final($1).mon().pend'))
    o.append('@fn Vx_write_block::write_block\n' + pre % (', opened(old($1).out())', ', pun(old($1).mon().last)', 'self.lfin(old($1).mon(), final($1).mon())'))
    def loop(n, v, k, it, whole, w, extra=()):
        o.append(f'    loop {n}:\n    invariant {v}.wf()\n    invariant [G01] pr_{k}_t({it}, {v}.out()) == {whole}')
        o.extend('    invariant ' + e for e in extra)
    for k, t in LISTS:
        if k == 'elist': continue
        n = f'Vx_write_list<G>@List<Node<{t}>>'
        o.append(f'@opt impl {n} open spec fn pl ( & self , t : Seq<Out> ) -> Seq<Out> {{ pr_{k}(*self, t) }}')
        o.append(f'@fn {n}::write_list')
        loop(0, '$1', k, 'vx_it0', f'pr_{k}(*self, old($1).out())', None, ['$1.dep() == old($1).dep()', '[G02] !$1.mon().pend'])
    for k, t, oe in BLOCKS:
        n = f'Vx_write_block<G>@List<Node<{t}>>'
        lf = '(*self is Nil ==> b == a) && (!(*self is Nil) ==> last_%s(*self) || (!b.pend && pun(b.last)))' % oe
        o.append(f'@opt impl {n} open spec fn pl ( & self , t : Seq<Out> ) -> Seq<Out> {{ pr_{k}(*self, t) }} open spec fn lfin ( & self , a : Mon , b : Mon ) -> bool {{ {lf} }}')
        o.append(f'@fn {n}::write_block')
        end = acc(parse('< |'), f'pr_{k}_t(vx_it0, *previous, $1.out())')
        o.append(f'    loop 0:\n    invariant $1.wf(), !(*self is Nil)\n    invariant [G01] {end} == pr_{k}(*self, old($1).out())\n    invariant $1.dep() == old($1).dep() + 1\n'
                 f'    invariant [G02] {oe}(previous.item) || (!$1.mon().pend && pun($1.mon().last))\n'
                 f'    invariant [G02] (if vx_it0 is Nil {{ {oe}(previous.item) }} else {{ last_{oe}(vx_it0) }}) == last_{oe}(*self)')
    return '\n'.join(o) + '\n'
open(f'{D}/codegen_gen.spec', 'w').write(spec())
