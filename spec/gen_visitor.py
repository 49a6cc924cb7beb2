#!/usr/bin/env python3
"""What a traversal reports, written once per kind of node as the ordered list of things that happen, and turned into four
specification functions per kind:
  refs_K   the declarations, uses and scopes reported (V02)
  sc_K     the same with the uses of `this` (S01)
  nodes_K  the node and statement list callbacks (V03)
  ent_K    which callbacks may happen with which stack of parents (V01)
Writes visitor_defs.rs and visitor_gen.spec."""
import os
D = os.path.dirname(os.path.abspath(__file__))
A = "<'ast>"

EXPR = [  # variant, callback, item type, what happens inside (None: no children, never a parent)
 ('This', 'on_this_expression', None, None),
 ('Identifier', 'on_identifier_expression', "Identifier<'ast>", ['use x']),
 ('Literal', 'on_literal_expression', "Literal<'ast>", None),
 ('Sequence', 'on_sequence_expression', "SequenceExpression<'ast>", ['exprs x.body']),
 ('Array', 'on_array_expression', "ArrayExpression<'ast>", ['exprs x.body']),
 ('Member', 'on_member_expression', "MemberExpression<'ast>", ['expr x.object']),
 ('ComputedMember', 'on_computed_member_expression', "ComputedMemberExpression<'ast>", ['expr x.object', 'expr x.property']),
 ('MetaProperty', 'on_meta_property', "MetaPropertyExpression<'ast>", []),
 ('Call', 'on_call_expression', "CallExpression<'ast>", ['expr x.callee', 'exprs x.arguments']),
 ('Binary', 'on_binary_expression', "BinaryExpression<'ast>", ['expr x.left', 'expr x.right']),
 ('Prefix', 'on_prefix_expression', "PrefixExpression<'ast>", ['expr x.operand']),
 ('Postfix', 'on_postfix_expression', "PostfixExpression<'ast>", ['expr x.operand']),
 ('Conditional', 'on_conditional_expression', "ConditionalExpression<'ast>", ['expr x.test', 'expr x.consequent', 'expr x.alternate']),
 ('Template', 'on_template_literal', "TemplateLiteral<'ast>", ['exprs x.expressions']),
 ('TaggedTemplate', 'on_tagged_template_expression', "TaggedTemplateExpression<'ast>", ['expr x.tag', 'exprs x.quasi.item.expressions']),
 ('Spread', 'on_spread_expression', "SpreadExpression<'ast>", ['expr x.argument']),
 ('Arrow', 'on_arrow_expression', "ArrowExpression<'ast>", ['enter Function', 'pats x.params', 'arrow x.body', 'leave']),
 ('Object', 'on_object_expression', "ObjectExpression<'ast>", ['props x.body']),
 ('Function', 'on_function_expression', "FunctionExpression<'ast>", ['func x']),
 ('Class', 'on_class_expression', "ClassExpression<'ast>", ['class x']),
]
STMT = [
 ('Expression', 'on_expression_statement', "ExpressionNode<'ast>", ['expr x']),
 ('Declaration', 'on_declaration_statement', "DeclarationStatement<'ast>", ['decls x.declarators']),
 ('Return', 'on_return_statement', "ReturnStatement<'ast>", ['oexpr x.value']),
 ('Break', 'on_break_statement', "BreakStatement<'ast>", []),
 ('Continue', 'on_continue_statement', "ContinueStatement<'ast>", []),
 ('Throw', 'on_throw_statement', "ThrowStatement<'ast>", ['expr x.value']),
 ('If', 'on_if_statement', "IfStatement<'ast>", ['expr x.test', 'stmt x.consequent', 'ostmt x.alternate']),
 ('While', 'on_while_statement', "WhileStatement<'ast>", ['expr x.test', 'stmt x.body']),
 ('Do', 'on_do_statement', "DoStatement<'ast>", ['stmt x.body', 'expr x.test']),
 ('For', 'on_for_statement', "ForStatement<'ast>", ['oforinit x.init', 'oexpr x.test', 'oexpr x.update', 'stmt x.body']),
 ('ForIn', 'on_for_in_statement', "ForInStatement<'ast>", ['forinit x.left.item', 'expr x.right', 'stmt x.body']),
 ('ForOf', 'on_for_of_statement', "ForOfStatement<'ast>", ['forinit x.left.item', 'expr x.right', 'stmt x.body']),
 ('Try', 'on_try_statement', "TryStatement<'ast>", ['block x.block.item', 'ocatch x.handler', 'oblock x.finalizer']),
 ('Block', 'on_block_statement', "BlockStatement<'ast>", ['block x']),
 ('Labeled', 'on_labeled_statement', "LabeledStatement<'ast>", ['stmt x.body']),
 ('Switch', 'on_switch_statement', "SwitchStatement<'ast>", ['expr x.discriminant', 'enter Block', 'cases x.cases.item.body', 'leave']),
 ('Function', 'on_function_statement', "FunctionStatement<'ast>", ['decl x.name.0.item', 'func x']),
 ('Class', 'on_class_statement', "ClassStatement<'ast>", ['decl x.name.0.item', 'class x']),
 ('Import', 'on_import_declaration_statement', "ImportDeclaration<'ast>", ['imports x.specifiers']),
]

# kind, parameter type, rank (of two functions over the same thing, the caller's is higher), alternatives
def node(table, empties, enum):
    out = [(f'{enum}::{v}', []) for v in empties]
    for v, cb, ty, kids in table:
        pat = f'{enum}::{v}(x)' if ty else f'{enum}::{v}(_)'
        on = [f'on {enum} {v}' + (' x' if ty else '')]
        if v == 'This': on.append('this')
        out.append((pat, on + ([] if kids is None else ['push'] + kids + ['pop'])))
    return out

KINDS = [
 ('expr', "ExpressionNode<'ast>", 0, 'x0.item', node(EXPR, ['Void'], 'Expression')),
 ('stmt', "StatementNode<'ast>", 0, 'x0.item', node(STMT, ['Empty', 'Debugger'], 'Statement')),
 ('pat', "Pattern<'ast>", 0, 'x0', [
   ('Pattern::Void', []), ('Pattern::Identifier(n)', ['decl n']),
   ('Pattern::ObjectPattern { properties }', ['bprops properties']), ('Pattern::ArrayPattern { elements }', ['pats elements']),
   ('Pattern::RestElement { argument }', ['decl argument.item']),
   ('Pattern::AssignmentPattern { left, right }', ['pat left.item', 'expr right'])]),
 ('bprop', "Property<'ast>", 1, 'x0', [
   ('Property::Shorthand(n)', ['decl n']), ('Property::Literal { key, value }', ['key key.item', 'bexpr value']),
   ('Property::Method { .. }', ['prop x0']), ('Property::Spread { argument }', ['bexpr argument'])]),
 ('bexpr', "ExpressionNode<'ast>", 1, 'x0.item', [
   ('Expression::Identifier(n)', ['decl n']), ('Expression::Object(o)', ['bprops o.body']), ('Expression::Array(a)', ['bexprs a.body']),
   ('Expression::Spread(s)', ['bexpr s.argument']),
   ('Expression::Binary(BinaryExpression { operator: OperatorKind::Assign, left, right })', ['bexpr left', 'expr right']),
   ('_', ['expr x0'])]),
 ('prop', "Property<'ast>", 0, 'x0', [
   ('Property::Shorthand(n)', ['use n']), ('Property::Literal { key, value }', ['key key.item', 'expr value']),
   ('Property::Method { key, value }', ['key key.item', 'func value.item']), ('Property::Spread { argument }', ['expr argument'])]),
 ('key', "PropertyKey<'ast>", 0, 'x0', [('PropertyKey::Computed(k)', ['expr k']), ('_', [])]),
 ('member', "ClassMember<'ast>", 0, 'x0', [
   ('ClassMember::Error', []), ('ClassMember::Method { is_static, key, kind, value }', ['key key.item', 'func value.item']),
   ('ClassMember::Literal { is_static, key, value }', ['key key.item', 'expr value'])]),
 ('func', "Function<'ast, N>", 0, None, ['enter Function', 'pats x0.params', 'body x0.body.item.body', 'leave']),
 ('class', "Class<'ast, N>", 0, None, ['oexpr x0.extends', 'members x0.body.item.body']),
 ('arrow', "ArrowBody<'ast>", 0, 'x0', [('ArrowBody::Expression(k)', ['expr k']), ('ArrowBody::Block(b)', ['body b.item.body'])]),
 ('block', "Block<'ast, Statement<'ast>>", 0, None, ['enter Block', 'body x0.body', 'leave']),
 ('body', "StatementList<'ast>", 1, None, ['list x0', 'stmts x0']),
 ('declr', "Declarator<'ast>", 0, None, ['pat x0.id.item', 'oexpr x0.init']),
 ('forinit', "ForInit<'ast>", 0, 'x0', [('ForInit::Declaration(d)', ['decls d.declarators']), ('ForInit::Expression(k)', ['expr k'])]),
 ('catch', "CatchClause<'ast>", 0, None, ['enter Block', 'pat x0.param.item', 'body x0.body.item.body', 'leave']),
 ('case', "SwitchCase<'ast>", 0, None, ['oexpr x0.test', 'body x0.consequent']),
 ('import', "ForImportSpecifier<'ast>", 0, 'x0', [
   ('ForImportSpecifier::ImportSpecifier(s)', ['decl s.local.item']), ('ForImportSpecifier::ImportDefaultSpecifier(s)', ['decl s.local.item']),
   ('ForImportSpecifier::ImportNamespaceSpecifier(s)', ['decl s.local.item'])]),
]
def opt(name, inner, ty, item=''):
    return (name, f"Option<{ty}>", 0, 'x0', [('None', []), ('Some(y)', [f'{inner} y{item}'])])
KINDS += [opt('oexpr', 'expr', "ExpressionNode<'ast>"), opt('ostmt', 'stmt', "StatementNode<'ast>"),
          opt('oforinit', 'forinit', "Node<'ast, ForInit<'ast>>", '.item'), opt('ocatch', 'catch', "Node<'ast, CatchClause<'ast>>", '.item'),
          opt('oblock', 'block', "BlockNode<'ast, Statement<'ast>>", '.item')]
def lst(name, inner, ty, item='.item', rank=0):
    return (name, f"NodeList<'ast, {ty}>", rank, 'x0', [('List::Nil', []), ('List::Cons(h, tl)', [f'{inner} (*h){item}', f'{name} *tl'])])
KINDS += [lst('exprs', 'expr', "Expression<'ast>", ''), lst('stmts', 'stmt', "Statement<'ast>", ''), lst('pats', 'pat', "Pattern<'ast>"),
          lst('bprops', 'bprop', "Property<'ast>", rank=1), lst('bexprs', 'bexpr', "Expression<'ast>", '', rank=1),
          lst('props', 'prop', "Property<'ast>"), lst('members', 'member', "ClassMember<'ast>"), lst('decls', 'declr', "Declarator<'ast>"),
          lst('cases', 'case', "SwitchCase<'ast>"), lst('imports', 'import', "ForImportSpecifier<'ast>")]
NAMES = {k[0] for k in KINDS}

def acc(fam, steps):
    t = 't'
    for s in steps:
        p = s.split(' ')
        if p[0] in NAMES:
            t = f"{fam}_{p[0]}({' '.join(p[1:])}, {t})"
        elif fam in ('refs', 'sc') and p[0] == 'use': t = f"{t}.push(RefEv::Use({p[1]}))"
        elif fam in ('refs', 'sc') and p[0] == 'decl': t = f"{t}.push(RefEv::Decl({p[1]}))"
        elif fam in ('refs', 'sc') and p[0] == 'enter': t = f"{t}.push(RefEv::Enter(ScopeKind::{p[1]}))"
        elif fam in ('refs', 'sc') and p[0] == 'leave': t = f"{t}.push(RefEv::Leave)"
        elif fam == 'sc' and p[0] == 'this': t = f"{t}.push(RefEv::This)"
        elif fam == 'nodes' and p[0] == 'on':
            e = p[1][0] + p[2]
            t = f"{t}.push(NodeEv::{e}({'x, ' if len(p) > 3 else ''}x0))"
        elif fam == 'nodes' and p[0] == 'list': t = f"{t}.push(NodeEv::List({p[1]}))"
    return t

def ent(steps):
    out, P = [], 'P'
    for s in steps:
        p = s.split(' ')
        if p[0] == 'push': P = None
        elif p[0] == 'pop': P = 'P'
        elif p[0] == 'on': par = f'ParentNode::{p[1]}(&x0)'; out.append(f'e == Entry {{ node: {par}, parents: P }}')
        elif p[0] in NAMES:
            out.append(f"ent_{p[0]}({' '.join(p[1:])}, {P or 'P.push(' + par + ')'}, e)")
    return ' || '.join(out) or 'false'

def arr(steps):
    """is the node k of an arrow function within what is visited?"""
    out = []
    for s in steps:
        p = s.split(' ')
        if p[0] == 'on' and p[2] == 'Arrow': out.append('vk == x0')
        elif p[0] in NAMES: out.append(f"arr_{p[0]}({' '.join(p[1:])}, vk)")
    return ' || '.join(out) or 'false'

def arr_defs():
    o = ["// written by gen_visitor.py"]
    for name, ty, rank, scrut, alts in KINDS:
        g = "<'ast, N>" if ', N>' in ty else "<'ast>"
        body = arr(alts) if scrut is None else 'match %s {\n%s    }' % (scrut, ''.join(f'        {p} => {arr(st)},\n' for p, st in alts))
        o.append(f"pub open spec fn arr_{name}{g}(x0: {ty}, vk: ExpressionNode<'ast>) -> bool\n    decreases x0, {rank}int\n{{\n    {body}\n}}")
    return '\n'.join(o) + '\n'

def arr_spec():
    o = ['//! written by gen_visitor.py']
    E = "forall|vk: ExpressionNode<'ast>|"
    def post(v, what):
        return [f'    requires good(old({v}).heap())', f'    ensures [T01] good(final({v}).heap()), le(old({v}).heap(), final({v}).heap())',
                f'    ensures [T01] {E} #![trigger was_set(final({v}).heap(), vk)] #![trigger {what}] {what} ==> was_set(final({v}).heap(), vk)']
    o.append("@opt trait Visitor spec fn heap(&self) -> Heap<'ast>;")
    o.append("@opt trait Visitable spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool;")
    o += ['@fn Visitable::visit_with'] + post('$1', 'self.v_arr(vk)')
    names = ['push_parent', 'pop_parent', 'on_enter_scope', 'on_leave_scope', 'on_reference_use', 'on_reference_declaration', 'on_statement_list']
    for n in names + [cb for tab in (EXPR, STMT) for _, cb, _, _ in tab]:
        o.append(f'@fn Visitor::{n}')
        if n == 'on_arrow_expression':
            o += ['    abstract', '    requires good(old(self).heap()), read(old(self).heap(), *$2).item == Expression::Arrow(*$1)',
                  '    ensures [T01] good(final(self).heap()), le(old(self).heap(), final(self).heap()), was_set(final(self).heap(), *$2)']
        else:
            o.append('    ensures [T01] final(self).heap() == old(self).heap()')
    for n, st in IMPLS:
        o.append(f"@opt impl Visitable@{n} open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool {{ {arr(st)} }}")
    def loop(n, it, v, rest, whole):
        return [f'    loop {n}:', f'    invariant good({v}.heap()), le(old({v}).heap(), {v}.heap())',
                f'    invariant [T01] {E} #![trigger was_set({v}.heap(), vk)] #![trigger arr_{rest}({it}, vk)] arr_{whole}, vk) ==> arr_{rest}({it}, vk) || was_set({v}.heap(), vk)']
    for n, st in IMPLS:
        if n.startswith('NodeList<') or n in ('ExpressionList', 'StatementList', 'Module'):
            k, a = st[0].split(' ')
            o += [f'@fn Visitable@{n}::visit_with'] + loop(0, 'vx_it0', '$1', 'stmts' if k == 'body' else k, f'{k}({a}')
    o += ['@fn Visitable@Pattern::visit_with'] + loop(0, 'vx_it0', '$1', 'bprops', 'pat(*self')
    o += ['@fn visit_bound_property'] + post('$1', 'arr_bprop(*$0, vk)')
    o += ['@fn visit_bound_expression'] + post('$1', 'arr_bexpr(*$0, vk)') + loop(0, 'vx_it0', '$1', 'bprops', 'bexpr(*$0') + loop(1, 'vx_it1', '$1', 'bexprs', 'bexpr(*$0')
    return '\n'.join(o) + '\n'

def defs(fams):
    o = ["// written by gen_visitor.py", "pub enum RefEv<'ast> { Use(Identifier<'ast>), Decl(Identifier<'ast>), Enter(ScopeKind), Leave, This }",
         "pub struct Entry<'ast> { pub node: ParentNode<'ast>, pub parents: Seq<ParentNode<'ast>> }"]
    vs = [f"{e}{v}({ty + ', ' if ty else ''}{n}<'ast>)" for e, n, tab in (('E', 'ExpressionNode', EXPR), ('S', 'StatementNode', STMT)) for v, _, ty, _ in tab]
    o.append("pub enum NodeEv<'ast> { " + ', '.join(vs) + ", List(StatementList<'ast>) }")
    for fam in fams:
        ev = dict(refs='RefEv', sc='RefEv', nodes='NodeEv').get(fam)
        for name, ty, rank, scrut, alts in KINDS:
            g = "<'ast, N>" if ', N>' in ty else "<'ast>"
            f = (lambda st: acc(fam, st)) if ev else ent
            body = f(alts) if scrut is None else 'match %s {\n%s    }' % (scrut, ''.join(f'        {p} => {f(st)},\n' for p, st in alts))
            if ev:
                o.append(f"pub open spec fn {fam}_{name}{g}(x0: {ty}, t: Seq<{ev}<'ast>>) -> Seq<{ev}<'ast>>\n    decreases x0, {rank}int\n{{\n    {body}\n}}")
            else:
                o.append(f"pub open spec fn ent_{name}{g}(x0: {ty}, P: Seq<ParentNode<'ast>>, e: Entry<'ast>) -> bool\n    decreases x0, {rank}int\n{{\n    {body}\n}}")
    return '\n'.join(o) + '\n'

FAM = dict(refs="open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { %s }", sc="open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { %s }",
           nodes="open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { %s }", ents="open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { %s }")
IMPLS = [  # impl, steps on self (called x0 in the steps)
 ('Node<Expression>', ['expr *self']), ('ExpressionNode', ['expr *self']), ('StatementNode', ['stmt *self']),
 ('ExpressionList', ['exprs *self']), ('StatementList', ['body *self']),
 ('Module', ['body self.body']), ('Pattern', ['pat *self']), ('PropertyKey', ['key *self']), ('Property', ['prop *self']),
 ('ThisExpression', []), ('Identifier', ['use *self']), ('Literal', []), ('MetaPropertyExpression', []),
 ('EmptyName', []), ('OptionalName', []), ('MandatoryName', ['decl self.0.item']),
 ('ArrowBody', ['arrow *self']), ('ClassMember', ['member *self']), ('BlockStatement', ['block *self']), ('Node<BlockStatement>', ['block self.item']),
 ('Declarator', ['declr *self']), ('ForInit', ['forinit *self']), ('CatchClause', ['catch *self']), ('SwitchCase', ['case *self']),
 ('ForImportSpecifier', ['import *self']), ('ImportSpecifier', ['decl self.local.item']), ('ImportDefaultSpecifier', ['decl self.local.item']),
 ('ImportNamespaceSpecifier', ['decl self.local.item']),
 ('Function<EmptyName>', ['func *self']), ('Function<OptionalName>', ['func *self']), ('Function<MandatoryName>', ['decl self.name.0.item', 'func *self']),
 ('Class<OptionalName>', ['class *self']), ('Class<MandatoryName>', ['decl self.name.0.item', 'class *self']),
 ('NodeList<Pattern>', ['pats *self']), ('NodeList<Property>', ['props *self']), ('NodeList<ClassMember>', ['members *self']),
 ('NodeList<Declarator>', ['decls *self']), ('NodeList<SwitchCase>', ['cases *self']), ('NodeList<ForImportSpecifier>', ['imports *self']),
 ('Node<Pattern>', ['pat self.item']), ('Node<Property>', ['prop self.item']), ('Node<PropertyKey>', ['key self.item']),
 ('Node<ClassMember>', ['member self.item']), ('Node<Declarator>', ['declr self.item']), ('Node<SwitchCase>', ['case self.item']),
 ('Node<CatchClause>', ['catch self.item']), ('Node<ForInit>', ['forinit self.item']), ('Node<ForImportSpecifier>', ['import self.item']),
 ('Node<Function<EmptyName>>', ['func self.item']), ('Node<TemplateLiteral>', ['exprs self.item.expressions']),
 ('Option<ExpressionNode>', ['oexpr *self']), ('Option<StatementNode>', ['ostmt *self']), ('Option<Node<ForInit>>', ['oforinit *self']),
 ('Option<Node<CatchClause>>', ['ocatch *self']), ('Option<BlockNode<Statement>>', ['oblock *self']),
]
for v, cb, ty, kids in EXPR + STMT:
    if ty and kids:
        n = ty.replace("<'ast>", '')
        if n not in [i for i, _ in IMPLS] and n not in ('FunctionExpression', 'FunctionStatement', 'ClassExpression', 'ClassStatement', 'ExpressionNode'):
            IMPLS.append((n, [k.replace('x.', 'self.') for k in kids]))
for n in ('BreakStatement', 'ContinueStatement'): IMPLS.append((n, []))

TYPES = dict(refs="Seq<RefEv<'ast>>", sc="Seq<RefEv<'ast>>", nodes="Seq<NodeEv<'ast>>", ents="Set<Entry<'ast>>", parents="Seq<ParentNode<'ast>>", scopes='Seq<ScopeKind>', wf='bool', begin="State<'ast>")
def spec(F, abstract):
    """F: the families this unit is about; abstract: callbacks without a default body"""
    o = ['//! written by gen_visitor.py']
    LABEL = dict(refs='V02', sc='S01', nodes='V03', ents='V01', parents='V01', scopes='V01') if abstract else dict(sc='S01', scopes='S01', begin='S01')
    def m(name, requires=None, **changes):
        o.append(f'@fn Visitor::{name}')
        if not abstract and changes and any(f in F for f in changes): o.append('    abstract')
        if requires and requires in F: o.append(f'    requires [{LABEL[requires]}] old(self).{requires}().len() > 0')
        same = [f for f in F if f not in changes and (f != 'wf' or not any(g in F for g in changes))]
        if same: o.append('    ensures ' + ', '.join(f'final(self).{f}() == old(self).{f}()' for f in same))
        for f, t in changes.items():
            if f in F: o.append(f'    ensures final(self).{f}() == {t}')
        if 'wf' in F and 'wf' not in same:
            o.append('    requires old(self).wf()')
            o.append('    ensures final(self).wf()')
    def ev(f, e): return {f: f'old(self).{f}().push({e})'}
    o.append('@opt trait Visitor ' + ' '.join(f'spec fn {f}(&self) -> {TYPES[f]};' for f in F))
    o.append('@opt trait Visitable ' + ' '.join(FAM[f].replace(' { %s }', ';').replace('open ', '') for f in F if f in FAM))
    o.append('@fn Visitable::visit_with')
    if 'wf' in F: o += ['    requires old($1).wf()', '    ensures final($1).wf()']
    for f in ('refs', 'sc', 'nodes'):
        if f in F: o.append(f'    ensures [{LABEL[f]}] final($1).{f}() == self.v_{f}(old($1).{f}())')
    for f in ('parents', 'scopes', 'begin'):
        if f in F: o.append(f'    ensures [{LABEL[f]}] final($1).{f}() == old($1).{f}()')
    if 'ents' in F: o.append("    ensures [V01] forall|e: Entry<'ast>| final($1).ents().contains(e) ==> old($1).ents().contains(e) || self.v_ent(old($1).parents(), e)")
    m('push_parent', parents='old(self).parents().push($1)')
    m('pop_parent', 'parents', parents='old(self).parents().drop_last()')
    m('on_enter_scope', **ev('refs', 'RefEv::Enter($1)'), **ev('sc', 'RefEv::Enter($1)'), scopes='old(self).scopes().push($1)')
    m('on_leave_scope', 'scopes', **ev('refs', 'RefEv::Leave'), **ev('sc', 'RefEv::Leave'), scopes='old(self).scopes().drop_last()')
    for n, e in (('on_reference_use', 'Use'), ('on_reference_declaration', 'Decl')):
        m(n, **ev('refs', f'RefEv::{e}(*$1)'), **ev('sc', f'RefEv::{e}(*$1)'))
    m('on_statement_list', **ev('nodes', 'NodeEv::List($1)'))
    for en, tab in (('Expression', EXPR), ('Statement', STMT)):
        for v, cb, ty, kids in tab:
            a = ('*$1, *$2', '$2') if ty else ('*$1', '$1')
            ch = dict(nodes=f'old(self).nodes().push(NodeEv::{en[0]}{v}({a[0]}))', ents=f'old(self).ents().insert(Entry {{ node: ParentNode::{en}({a[1]}), parents: old(self).parents() }})')
            if v == 'This': ch['sc'] = 'old(self).sc().push(RefEv::This)'
            m(cb, **ch)
    for n, st in IMPLS:
        t = ' '.join(FAM[f] % (acc(f, st) if f != 'ents' else ent(st)) for f in F if f in FAM)
        o.append(f'@opt impl Visitable@{n} {t}')
    def post(whole, a, v):
        if 'wf' in F: o.extend([f'    requires old({v}).wf()', f'    ensures final({v}).wf()'])
        for f in ('refs', 'sc', 'nodes'):
            if f in F: o.append(f'    ensures [{LABEL[f]}] final({v}).{f}() == {f}_{whole}({a}, old({v}).{f}())')
        for f in ('parents', 'scopes', 'begin'):
            if f in F: o.append(f'    ensures [{LABEL[f]}] final({v}).{f}() == old({v}).{f}()')
        if 'ents' in F: o.append(f"    ensures [V01] forall|e: Entry<'ast>| final({v}).ents().contains(e) ==> old({v}).ents().contains(e) || ent_{whole}({a}, old({v}).parents(), e)")
    def loop(n, it, v, rest, whole):
        """the rest of the list still to be visited, after what has been reported so far, makes up the whole"""
        o.append(f'    loop {n}:')
        if 'wf' in F: o.append(f'    invariant {v}.wf()')
        for f in ('refs', 'sc', 'nodes'):
            if f in F: o.append(f'    invariant [{LABEL[f]}] {f}_{rest}({it}, {v}.{f}()) == {whole.replace("F_", f + "_")}, old({v}).{f}())')
        for f in ('parents', 'scopes', 'begin'):
            if f in F: o.append(f'    invariant [{LABEL[f]}] {v}.{f}() == old({v}).{f}()')
        w = whole.replace('F_body', 'F_stmts').replace('F_', 'ent_')
        if 'ents' in F:
            o.append(f"    invariant [V01] forall|e: Entry<'ast>| #![trigger {w}, old({v}).parents(), e)] #![trigger ent_{rest}({it}, old({v}).parents(), e)] ent_{rest}({it}, old({v}).parents(), e) ==> {w}, old({v}).parents(), e)")
            o.append(f"    invariant [V01] forall|e: Entry<'ast>| {v}.ents().contains(e) ==> old({v}).ents().contains(e) || {w}, old({v}).parents(), e)")
    for n, st in IMPLS:
        if n.startswith('NodeList<') or n == 'ExpressionList' or n == 'StatementList' or n == 'Module':
            o.append(f'@fn Visitable@{n}::visit_with')
            k, a = st[0].split(' ')
            loop(0, 'vx_it0', '$1', 'stmts' if k == 'body' else k, f'F_{k}({a}')
    o.append('@fn Visitable@Pattern::visit_with')
    loop(0, 'vx_it0', '$1', 'bprops', 'F_pat(*self')
    o.append('@fn visit_bound_property'); post('bprop', '*$0', '$1')
    o.append('@fn visit_bound_expression'); post('bexpr', '*$0', '$1')
    loop(0, 'vx_it0', '$1', 'bprops', 'F_bexpr(*$0')
    loop(1, 'vx_it1', '$1', 'bexprs', 'F_bexpr(*$0')
    return '\n'.join(o) + '\n'
open(f'{D}/visitor_defs.rs', 'w').write(defs(('refs', 'sc', 'nodes', 'ent')))
open(f'{D}/visitor_gen.spec', 'w').write(spec(['refs', 'sc', 'nodes', 'ents', 'parents', 'scopes'], True))
open(f'{D}/scope_defs.rs', 'w').write(defs(('sc',)))
open(f'{D}/scope_gen.spec', 'w').write(spec(['sc', 'scopes', 'begin', 'wf'], False))
open(f'{D}/transform_defs.rs', 'w').write(arr_defs())
open(f'{D}/transform_gen.spec', 'w').write(arr_spec())
