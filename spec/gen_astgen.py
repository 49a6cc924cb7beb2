#!/usr/bin/env python3
"""The exported object of every construct, written once as a table of fields, and turned into
  f_K(x)    the fields of a K, without its place     n_K(x)    the object of the node x of kind K
  l_K(x)    the objects of a list of such nodes      o_K(x)    the object of an optional node, null when absent
  okf_K, okn_K, okl_K, oko_K  what the exporter may assume of the tree (the parser makes no other)
and into the contracts of unit astgen (A01). Writes astgen_gen.rs and astgen_gen.spec.

A field is  name=FORM.  The forms:
  K e   node of kind K        K* e  list of nodes       K? e  optional node
  str e  the text e           'x'   this text           bool e  op e  name e  null  none (the empty list)
  j e   the specification expression e, of type J       ok:e  also required of the tree
"""
import os, re
from gen_codegen import OPS
D = os.path.dirname(os.path.abspath(__file__))
def key(s):
    assert len(s) <= 16
    return '0x%xint' % int.from_bytes(s.encode(), 'big')

EXPR = [
 ('Void', 'Void', 'ok:false'),
 ('This(_)', 'ThisExpression', ''),
 ('Identifier(n)', 'Identifier', 'name=str n'),
 ('Literal(l)', '+f_lit(l)', 'ok:okf_lit(l)'),
 ('Sequence(x)', 'SequenceExpression', 'expressions=expr* x.body'),
 ('Array(x)', 'ArrayExpression', 'elements=j J::Arr(trim(l_elems(x.body))); ok:okl_elems(x.body)'),
 ('Member(x)', 'MemberExpression', 'object=expr x.object; property=ident x.property; computed=bool false'),
 ('ComputedMember(x)', 'MemberExpression', 'object=expr x.object; property=expr x.property; computed=bool true'),
 ('MetaProperty(x)', 'MetaProperty', 'meta=ident x.meta; property=ident x.property'),
 ('Call(x)', 'CallExpression', 'callee=expr x.callee; arguments=expr* x.arguments'),
 ('Binary(x)', '=op_type(x.operator, false)', 'operator=op x.operator; left=expr x.left; right=expr x.right'),
 ('Prefix(x)', '+PREFIX', 'ok:OKPREFIX'),
 ('Postfix(x)', '=op_type(x.operator, false)', 'operator=op x.operator; argument=expr x.operand; prefix=bool false'),
 ('Conditional(x)', 'ConditionalExpression', 'test=expr x.test; consequent=expr x.consequent; alternate=expr x.alternate'),
 ('Template(x)', '+f_tpl(x)', 'ok:okf_tpl(x)'),
 ('TaggedTemplate(x)', 'TaggedTemplateExpression', 'tag=expr x.tag; quasi=tpl x.quasi'),
 ('Spread(x)', 'SpreadElement', 'argument=expr x.argument'),
 ('Arrow(x)', 'ArrowFunctionExpression', 'params=pat* x.params; body=arrow x.body'),
 ('Object(x)', 'ObjectExpression', 'properties=prop* x.body'),
 ('Function(x)', '+f_func(x)', 'ok:okf_func(x)'),
 ('Class(x)', '+f_class(x)', 'ok:okf_class(x)'),
]
STMT = [
 ('Empty', 'EmptyStatement', ''), ('Debugger', 'DebuggerStatement', ''),
 ('Expression(x)', 'ExpressionStatement', 'expression=expr x'),
 ('Declaration(x)', '+f_declaration(x)', 'ok:okf_declaration(x)'),
 ('Return(x)', 'ReturnStatement', 'argument=expr? x.value'),
 ('Break(x)', 'BreakStatement', 'label=ident? x.label'),
 ('Continue(x)', 'ContinueStatement', 'label=ident? x.label'),
 ('Throw(x)', 'ThrowStatement', 'argument=expr x.value'),
 ('If(x)', 'IfStatement', 'test=expr x.test; consequent=stmt x.consequent; alternate=stmt? x.alternate'),
 ('While(x)', 'WhileStatement', 'test=expr x.test; body=stmt x.body'),
 ('Do(x)', 'DoWhileStatement', 'body=stmt x.body; test=expr x.test'),
 ('For(x)', 'ForStatement', 'init=forinit? x.init; test=expr? x.test; update=expr? x.update; body=stmt x.body'),
 ('ForIn(x)', 'ForInStatement', 'left=forinit x.left; right=expr x.right; body=stmt x.body'),
 ('ForOf(x)', 'ForOfStatement', 'left=forinit x.left; right=expr x.right; body=stmt x.body'),
 ('Try(x)', 'TryStatement', 'block=block x.block; handler=catch? x.handler; finalizer=block? x.finalizer'),
 ('Block(x)', '+f_block(x)', 'ok:okf_block(x)'),
 ('Labeled(x)', 'LabeledStatement', 'label=str x.label; body=stmt x.body'),
 ('Function(x)', '+f_func(x)', 'ok:okf_func(x)'),
 ('Class(x)', '+f_class(x)', 'ok:okf_class(x)'),
 ('Switch(x)', 'SwitchStatement', 'discriminant=expr x.discriminant; cases=case* x.cases.item.body'),
 ('Import(x)', 'ImportDeclaration', 'specifiers=imp* x.specifiers; source=str x.source'),
]
def key_form(k): return 'computed=bool (%s.item is Computed); key=key %s' % (k, k)
KINDS = [  # name, type, alternatives (pattern or None, type, fields)
 ('expr', "Expression<'ast>", [('Expression::' + p, t, f) for p, t, f in EXPR]),
 ('stmt', "Statement<'ast>", [('Statement::' + p, t, f) for p, t, f in STMT]),
 ('pat', "Pattern<'ast>", [
   ('Pattern::Void', 'Void', 'ok:false'), ('Pattern::Identifier(n)', 'Identifier', 'name=str n'),
   ('Pattern::ObjectPattern { properties }', 'ObjectPattern', 'keys=prop* properties'),
   ('Pattern::ArrayPattern { elements }', 'ArrayPattern', 'elements=j J::Arr(drop_one(l_pelems(elements))); ok:okl_pelems(elements)'),
   ('Pattern::RestElement { argument }', 'RestElement', 'argument=ident argument'),
   ('Pattern::AssignmentPattern { left, right }', 'AssignmentPattern', 'left=pat left; right=expr right')]),
 ('prop', "Property<'ast>", [
   ('Property::Shorthand(n)', 'Identifier', 'name=str n'),
   ('Property::Literal { key, value }', 'Property', key_form('key') + "; method=bool false; shorthand=bool false; value=expr value; kind='init'"),
   ('Property::Method { key, value }', 'Property', key_form('key') + "; method=bool true; shorthand=bool false; value=func value; kind='init'"),
   ('Property::Spread { argument }', 'SpreadProperty', 'argument=expr argument')]),
 ('member', "ClassMember<'ast>", [
   ('ClassMember::Error', 'Error', 'ok:false'),
   ('ClassMember::Method { is_static, key, kind, value }', 'MethodDefinition', "kind=j method_kind(kind); static=bool is_static; value=func value; " + key_form('key')),
   ('ClassMember::Literal { is_static, key, value }', 'PropertyDefinition', "static=bool is_static; value=expr value; " + key_form('key'))]),
 ('declr', "Declarator<'ast>", [(None, 'VariableDeclarator', 'id=pat x0.id; init=expr? x0.init')]),
 ('declaration', "DeclarationStatement<'ast>", [(None, 'VariableDeclaration', 'kind=j declaration_kind(x0.kind); declarations=declr* x0.declarators')]),
 ('case', "SwitchCase<'ast>", [(None, 'SwitchCase', 'test=expr? x0.test; consequent=stmt* x0.consequent')]),
 ('catch', "CatchClause<'ast>", [(None, 'CatchClause', 'param=pat x0.param; body=block x0.body')]),
 ('forinit', "ForInit<'ast>", [
   ('ForInit::Declaration(d)', '+f_declaration(d)', 'ok:okf_declaration(d)'), ('ForInit::Expression(k)', '+f_expr((*k).item)', 'ok:okf_expr((*k).item)')]),
 ('imp', "ForImportSpecifier<'ast>", [
   ('ForImportSpecifier::ImportDefaultSpecifier(s)', 'ImportDefaultSpecifier', 'local=ident s.local'),
   ('ForImportSpecifier::ImportNamespaceSpecifier(s)', 'ImportNamespaceSpecifier', 'local=ident s.local'),
   ('ForImportSpecifier::ImportSpecifier(s)', 'ImportSpecifier', 'imported=ident s.imported; local=ident s.local')]),
 ('ident', "&'ast str", [(None, 'Identifier', 'name=str x0')]),
 ('block', "Block<'ast, Statement<'ast>>", [(None, 'BlockStatement', 'body=stmt* x0.body')]),
 ('mblock', "Block<'ast, ClassMember<'ast>>", [(None, 'ClassBody', 'body=member* x0.body')]),
 ('func', "Function<'ast, N>", [(None, '=N::jfun()', 'generator=bool x0.generator; id=name x0.name; params=pat* x0.params; body=block x0.body')]),
 ('class', "Class<'ast, N>", [(None, '=N::jclass()', 'id=name x0.name; superClass=expr? x0.extends; body=mblock x0.body')]),
 ('tpl', "TemplateLiteral<'ast>", [(None, 'TemplateLiteral', 'quasis=j J::Arr(l_quasis(x0.quasis)); expressions=expr* x0.expressions; ok:okl_quasis(x0.quasis)')]),
]
RANK = {}
LISTS = ['expr', 'stmt', 'pat', 'prop', 'member', 'declr', 'case', 'imp']
TY = {k: t for k, t, _ in KINDS}

def forms(s):
    out = []
    d, cur = 0, ''
    for c in s + ';':
        if c == ';' and d == 0:
            if cur.strip(): out.append(cur.strip())
            cur = ''; continue
        d += (c in '({') - (c in ')}'); cur += c
    return out
def node(K, e): return f'placed(f_{K}(({e}).item), ({e}).start as int, ({e}).end as int)'
def value(f):
    if f.startswith("'"): return f'J::Str("{f[1:-1]}"@)', None
    if f == 'null': return 'J::Null', None
    k, e = f.split(' ', 1)
    if k == 'str': return f'J::Str(({e})@)', None
    if k == 'bool': return f'J::Bool({e})', None
    if k == 'op': return f'J::Str(op_name({e}))', None
    if k == 'j': return e, None
    if k == 'name': return f'({e}).jn()', None
    if k == 'key': return f'n_key({e})', f'okn_key({e})'
    if k == 'arrow': return f'n_arrow({e})', f'okn_arrow({e})'
    K = k.rstrip('*?')
    assert K in TY, k
    if k[-1] == '*': return f'J::Arr(l_{K}({e}))', f'okl_{K}({e})'
    if k[-1] == '?': return f'(match {e} {{ Some(y) => {node(K, "y")}, None => J::Null }})', (f'(match {e} {{ Some(y) => okf_{K}(y.item), None => true }})' if K != 'ident' else None)
    return node(K, e), (f'okf_{K}(({e}).item)' if K != 'ident' else None)
def alt(t, fs):
    """the fields, and what is required"""
    oks = []
    if t.startswith('+'): m = t[1:]
    else:
        m = f"named({t[1:]})" if t.startswith('=') else f'named("{t}"@)'
    for f in forms(fs):
        if f.startswith('ok:'): oks.append(f[3:]); continue
        n, form = f.split('=', 1)
        v, ok = value(form)
        m += f'.insert({key(n)}, {v})'
        if ok: oks.append(ok)
    return (prefix(0) if m == 'PREFIX' else m), (' && '.join(oks) or 'true').replace('OKPREFIX', prefix(1) if 'OKPREFIX' in oks else '')
# a new expression keeps its arguments in a call
NEW = [('Expression::Call(c)', alt('NewExpression', 'callee=expr c.callee; arguments=expr* c.arguments')), ('_', alt('NewExpression', 'callee=expr x.operand; arguments=j J::Arr(Seq::empty())'))]
UN = alt('=op_type(x.operator, true)', 'operator=op x.operator; argument=expr x.operand; prefix=bool true')
def prefix(i): return f"(if x.operator is New {{ match x.operand.item {{ {' '.join(f'{p} => {a[i]},' for p, a in NEW)} }} }} else {{ {UN[i]} }})"
def defs():
    o = ['// written by gen_astgen.py']
    def fn(name, g, par, ret, dec, body):
        o.append(f"pub open spec fn {name}{g}({par}) -> {ret}\n{f'    decreases {dec}' + chr(10) if dec else ''}{{\n    {body}\n}}")
    for k, ty, alts in KINDS:
        g = "<'ast, N: JName>" if ', N>' in ty else "<'ast>"
        for i, (nm, ret) in enumerate((('f', 'Map<int, J>'), ('okf', 'bool'))):
            if k == 'ident' and i: continue
            if alts[0][0] is None: body = alt(alts[0][1], alts[0][2])[i]
            else: body = 'match x0 {\n' + ''.join(f'        {p} => {alt(t, f)[i]},\n' for p, t, f in alts) + '    }'
            fn(f'{nm}_{k}', g, f'x0: {ty}', ret, 'x0, %dint' % RANK.get(k, 0) if k != 'ident' else None, body)
    for k in LISTS:
        fn(f'l_{k}', "<'ast>", f"x0: NodeList<'ast, {TY[k]}>", 'Seq<J>', 'x0', f'match x0 {{ List::Nil => Seq::empty(), List::Cons(h, tl) => seq![{node(k, "*h")}] + l_{k}(*tl) }}')
        fn(f'okl_{k}', "<'ast>", f"x0: NodeList<'ast, {TY[k]}>", 'bool', 'x0', f'match x0 {{ List::Nil => true, List::Cons(h, tl) => okf_{k}((*h).item) && okl_{k}(*tl) }}')
    for k, e, void in (('elems', 'expr', 'Expression::Void'), ('pelems', 'pat', 'Pattern::Void')):
        fn(f'l_{k}', "<'ast>", f"x0: NodeList<'ast, {TY[e]}>", 'Seq<J>', 'x0', f'match x0 {{ List::Nil => Seq::empty(), List::Cons(h, tl) => seq![if h.item is Void {{ J::Null }} else {{ {node(e, "*h")} }}] + l_{k}(*tl) }}')
        fn(f'okl_{k}', "<'ast>", f"x0: NodeList<'ast, {TY[e]}>", 'bool', 'x0', f'match x0 {{ List::Nil => true, List::Cons(h, tl) => (h.item is Void || okf_{e}((*h).item)) && okl_{k}(*tl) }}')
    fn('n_key', "<'ast>", "x0: Node<'ast, PropertyKey<'ast>>", 'J', 'x0, 1int',
       'match x0.item { PropertyKey::Computed(k) => %s, PropertyKey::Literal(n) => placed(f_ident(n), x0.start as int, x0.end as int), PropertyKey::Binary(n) => placed(f_ident(n), x0.start as int, x0.end as int) }' % node('expr', 'k'))
    fn('okn_key', "<'ast>", "x0: Node<'ast, PropertyKey<'ast>>", 'bool', 'x0, 1int', 'match x0.item { PropertyKey::Computed(k) => okf_expr(k.item), _ => true }')
    fn('n_arrow', "<'ast>", "x0: ArrowBody<'ast>", 'J', 'x0, 2int', 'match x0 { ArrowBody::Expression(k) => %s, ArrowBody::Block(b) => %s }' % (node('expr', 'k'), node('block', 'b')))
    fn('okn_arrow', "<'ast>", "x0: ArrowBody<'ast>", 'bool', 'x0, 2int', 'match x0 { ArrowBody::Expression(k) => okf_expr(k.item), ArrowBody::Block(b) => okf_block(b.item) }')
    # quasis
    fn('f_quasi', "<'ast>", "tail: bool, text: &'ast str", 'Map<int, J>', None, alt('TemplateElement', 'tail=bool tail; value=j J::Obj(Map::empty().insert(%s, J::Str(text@)).insert(%s, J::Str(text@)))' % (key('raw'), key('cooked')))[0])
    fn('l_quasis', "<'ast>", "x0: NodeList<'ast, &'ast str>", 'Seq<J>', 'x0', 'match x0 { List::Nil => Seq::empty(), List::Cons(q, tl) => seq![placed(f_quasi(*tl is Nil, (*q).item), (*q).start + 1, (*q).end - 1)] + l_quasis(*tl) }')
    fn('okl_quasis', "<'ast>", "x0: NodeList<'ast, &'ast str>", 'bool', 'x0', 'match x0 { List::Nil => true, List::Cons(q, tl) => (*q).start < u32::MAX && (*q).end > 0 && okl_quasis(*tl) }')
    # literals
    lit = [('Undefined', "raw='undefined'"), ('Null', "value=null; raw='null'"), ('True', "value=bool true; raw='true'"), ('False', "value=bool false; raw='false'"),
      ('Number(s)', 'value=j number_value(s@); raw=str s'), ('Binary(s)', 'value=j integer(text_sub(s@, 2, text_len(s@)), 2); raw=str s'),
      ('String(s)', 'value=j J::Str(text_sub(s@, 1, text_len(s@) - 1)); raw=str s'), ('RegEx(s)', 'regex=j regex_value(s@); raw=str s')]
    fn('f_lit', "<'ast>", "x0: Literal<'ast>", 'Map<int, J>', None, 'match x0 {\n' + ''.join(f"        Literal::{p} => {alt('Literal', f)[0]},\n" for p, f in lit) + '    }')
    fn('okf_lit', "<'ast>", "x0: Literal<'ast>", 'bool', None,
       'match x0 {\n        Literal::Number(s) => number_text(s@),\n        Literal::Binary(s) => binary_text(s@),\n        Literal::String(s) => string_text(s@),\n        Literal::RegEx(s) => regex_text(s@),\n        _ => true,\n    }')
    o.append("pub open spec fn op_name(op: OperatorKind) -> Seq<char> { match op { %s } }" % ' '.join(f'OperatorKind::{x[0]} => "{x[1]}"@,' for x in OPS))
    for nm in ('raw', 'cooked', 'value', 'pattern', 'flags', 'type', 'start', 'end', 'body'):
        o.append(f'pub open spec fn key_{nm}() -> int {{ {key(nm)} }}')
    return '\n'.join(o) + '\n'
open(f'{D}/astgen_gen.rs', 'w').write(defs())

# --- the contracts
def spec():
    o, r = ['//! written by gen_astgen.py'], ['// written by gen_astgen.py']
    plain = ('EmptyName', 'DeclarationKind', 'MethodKind', 'OperatorKind', 'T')
    def full(n):
        n = re.sub(r'\b(\w+)', lambda m: m[1] if m[1] in plain + ('str', 'Loc', 'Block', 'Function', 'Class') else m[1] + "<'ast>", n)
        return re.sub(r'\b(Block|Function|Class)<(?!\')', r"\1<'ast, ", n).replace("&Loc", "&'ast Loc").replace('&str', "&'ast str")
    L = {}   # SerializeInLoc impls: fields, requirement
    for tab, enum, k in ((EXPR, 'Expression', 'expr'), (STMT, 'Statement', 'stmt')):
        for p, t, f in tab:
            v = p.split('(')[0]
            if v in ('Void', 'This', 'Identifier', 'Literal', 'Function', 'Class', 'Template', 'Empty', 'Debugger', 'Declaration', 'Import', 'Block', 'Return', 'Break', 'Continue', 'Throw', 'While', 'Do') or (k == 'stmt' and v == 'Expression'): continue
            L[v + enum] = (f'f_{k}({enum}::{v}(*self))', f'okf_{k}({enum}::{v}(*self))')
    L['ImportDeclaration'] = ('f_stmt(Statement::Import(*self))', 'okf_stmt(Statement::Import(*self))')
    for n, k in (('Expression', 'expr'), ('Statement', 'stmt'), ('Pattern', 'pat'), ('Property', 'prop'), ('ClassMember', 'member'), ('Declarator', 'declr'), ('DeclarationStatement', 'declaration'),
                 ('SwitchCase', 'case'), ('CatchClause', 'catch'), ('ForInit', 'forinit'), ('ForImportSpecifier', 'imp'), ('BlockStatement', 'block'), ('Block<ClassMember>', 'mblock'),
                 ('TemplateLiteral', 'tpl'), ('Literal', 'lit')):
        L[n] = (f'f_{k}(*self)', f'okf_{k}(*self)')
    L['&str'] = ('f_ident(*self)', 'true')
    for n in ('EmptyName', 'OptionalName', 'MandatoryName'):
        L[f'Function<{n}>'] = ('f_func(*self)', 'okf_func(*self)')
        if n != 'EmptyName': L[f'Class<{n}>'] = ('f_class(*self)', 'okf_class(*self)')
    L['TemplateElement'] = ('f_quasi(self.tail, self.value)', 'true')
    for n, (f, ok) in L.items():
        r.append(f"impl<'ast> JLoc for {full(n)} {{ open spec fn jf(&self) -> Map<int, J> {{ {f} }} open spec fn okl(&self) -> bool {{ {ok} }} }}")
    S = {'Loc<T>': ('placed(self.item.jf(), self.start as int, self.end as int)', 'self.item.okl()'),
         '&Loc<T>': ('placed(self.item.jf(), self.start as int, self.end as int)', 'self.item.okl()'),
         'Module': ('program(self.body)', 'okl_stmt(self.body)'),
         'Loc<Block<SwitchCase>>': ('J::Arr(l_case(self.item.body))', 'okl_case(self.item.body)'),
         'Loc<ArrowBody>': ('n_arrow(self.item)', 'okn_arrow(self.item)'),
         'Loc<PropertyKey>': ('n_key(self)', 'okn_key(self)'),
         'DeclarationKind': ('declaration_kind(*self)', 'true'), 'MethodKind': ('method_kind(*self)', 'true'), 'OperatorKind': ('J::Str(op_name(*self))', 'true'),
         'ForInit': ('(match *self { ForInit::Declaration(d) => J::Obj(f_declaration(d)), ForInit::Expression(k) => ' + node('expr', 'k') + ' })', 'okf_forinit(*self)'),
         'EmptyName': ('self.jn()', 'true'), 'OptionalName': ('self.jn()', 'true'), 'MandatoryName': ('self.jn()', 'true'),
         'TemplateQuasis': ('J::Arr(l_quasis(self.0))', 'okl_quasis(self.0)')}
    for n, (f, ok) in S.items():
        r.append(f"impl<'ast{', T: JLoc' if '<T>' in n else ''}> Js for {full(n)} {{ open spec fn js(&self) -> J {{ {f} }} open spec fn ok(&self) -> bool {{ {ok} }} }}")
    for k in ('Function', 'Class'):
        o.append(f"@mono SerializeInLoc@{k}<N> => N = " + ("EmptyName; " if k == 'Function' else '') + "OptionalName<'ast>; MandatoryName<'ast>")
    return '\n'.join(o) + '\n', '\n'.join(r) + '\n'
S, R = spec()
open(f'{D}/astgen_gen.spec', 'w').write(S)

# --- what serde makes of the lists
stub = 'impl%s Serialize for %s { #[verifier::external_body] fn serialize(&self, serializer: Ser) -> (ret: Result<Json, SerError>) { unimplemented!() } }'
def lists():
    o = ['// written by gen_astgen.py: lists of nodes are exported in order']
    for k in LISTS:
        o.append(f"impl<'ast> Js for List<'ast, Node<'ast, {TY[k]}>> {{\n    open spec fn js(&self) -> J {{ J::Arr(l_{k}(*self)) }}\n    open spec fn ok(&self) -> bool {{ okl_{k}(*self) }}\n}}")
        o.append(stub % ("<'ast>", f"List<'ast, Node<'ast, {TY[k]}>>"))
    o.append('// plain values, and the two structs whose export is derived')
    for g, t, e in [('', 'str', 'J::Str(self@)'), ("<'a>", "&'a str", 'J::Str(self@)'), ('', 'bool', 'J::Bool(*self)'), ('', 'u32', 'J::Int(*self as int)'), ('', 'i64', 'J::Int(*self as int)'), ('', 'f64', 'J::Real(*self)'),
                    ('', '()', 'J::Null'), ('', '[(); 0]', 'J::Arr(Seq::empty())'),
                    ("<'ast>", "RegExLiteral<'ast>", f'J::Obj(Map::empty().insert({key("pattern")}, J::Str(self.pattern@)).insert({key("flags")}, J::Str(self.flags@)))'),
                    ("<'ast>", "TemplateElementValue<'ast>", f'J::Obj(Map::empty().insert({key("raw")}, J::Str(self.raw@)).insert({key("cooked")}, J::Str(self.cooked@)))')]:
        o.append(f"impl{g} Js for {t} {{\n    open spec fn js(&self) -> J {{ {e} }}\n    open spec fn ok(&self) -> bool {{ true }}\n}}")
        o.append(stub % (g, t))
    return '\n'.join(o) + '\n'
open(f'{D}/astgen_lists.rs', 'w').write(lists() + R)
