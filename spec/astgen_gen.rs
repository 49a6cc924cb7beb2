// written by gen_astgen.py
pub open spec fn f_expr<'ast>(x0: Expression<'ast>) -> Map<int, J>
    decreases x0, 0int
{
    match x0 {
        Expression::Void => named("Void"@),
        Expression::This(_) => named("ThisExpression"@),
        Expression::Identifier(n) => named("Identifier"@).insert(0x6e616d65int, J::Str((n)@)),
        Expression::Literal(l) => f_lit(l),
        Expression::Sequence(x) => named("SequenceExpression"@).insert(0x65787072657373696f6e73int, J::Arr(l_expr(x.body))),
        Expression::Array(x) => named("ArrayExpression"@).insert(0x656c656d656e7473int, J::Arr(trim(l_elems(x.body)))),
        Expression::Member(x) => named("MemberExpression"@).insert(0x6f626a656374int, placed(f_expr((x.object).item), (x.object).start as int, (x.object).end as int)).insert(0x70726f7065727479int, placed(f_ident((x.property).item), (x.property).start as int, (x.property).end as int)).insert(0x636f6d7075746564int, J::Bool(false)),
        Expression::ComputedMember(x) => named("MemberExpression"@).insert(0x6f626a656374int, placed(f_expr((x.object).item), (x.object).start as int, (x.object).end as int)).insert(0x70726f7065727479int, placed(f_expr((x.property).item), (x.property).start as int, (x.property).end as int)).insert(0x636f6d7075746564int, J::Bool(true)),
        Expression::MetaProperty(x) => named("MetaProperty"@).insert(0x6d657461int, placed(f_ident((x.meta).item), (x.meta).start as int, (x.meta).end as int)).insert(0x70726f7065727479int, placed(f_ident((x.property).item), (x.property).start as int, (x.property).end as int)),
        Expression::Call(x) => named("CallExpression"@).insert(0x63616c6c6565int, placed(f_expr((x.callee).item), (x.callee).start as int, (x.callee).end as int)).insert(0x617267756d656e7473int, J::Arr(l_expr(x.arguments))),
        Expression::Binary(x) => named(op_type(x.operator, false)).insert(0x6f70657261746f72int, J::Str(op_name(x.operator))).insert(0x6c656674int, placed(f_expr((x.left).item), (x.left).start as int, (x.left).end as int)).insert(0x7269676874int, placed(f_expr((x.right).item), (x.right).start as int, (x.right).end as int)),
        Expression::Prefix(x) => (if x.operator is New { match x.operand.item { Expression::Call(c) => named("NewExpression"@).insert(0x63616c6c6565int, placed(f_expr((c.callee).item), (c.callee).start as int, (c.callee).end as int)).insert(0x617267756d656e7473int, J::Arr(l_expr(c.arguments))), _ => named("NewExpression"@).insert(0x63616c6c6565int, placed(f_expr((x.operand).item), (x.operand).start as int, (x.operand).end as int)).insert(0x617267756d656e7473int, J::Arr(Seq::empty())), } } else { named(op_type(x.operator, true)).insert(0x6f70657261746f72int, J::Str(op_name(x.operator))).insert(0x617267756d656e74int, placed(f_expr((x.operand).item), (x.operand).start as int, (x.operand).end as int)).insert(0x707265666978int, J::Bool(true)) }),
        Expression::Postfix(x) => named(op_type(x.operator, false)).insert(0x6f70657261746f72int, J::Str(op_name(x.operator))).insert(0x617267756d656e74int, placed(f_expr((x.operand).item), (x.operand).start as int, (x.operand).end as int)).insert(0x707265666978int, J::Bool(false)),
        Expression::Conditional(x) => named("ConditionalExpression"@).insert(0x74657374int, placed(f_expr((x.test).item), (x.test).start as int, (x.test).end as int)).insert(0x636f6e73657175656e74int, placed(f_expr((x.consequent).item), (x.consequent).start as int, (x.consequent).end as int)).insert(0x616c7465726e617465int, placed(f_expr((x.alternate).item), (x.alternate).start as int, (x.alternate).end as int)),
        Expression::Template(x) => f_tpl(x),
        Expression::TaggedTemplate(x) => named("TaggedTemplateExpression"@).insert(0x746167int, placed(f_expr((x.tag).item), (x.tag).start as int, (x.tag).end as int)).insert(0x7175617369int, placed(f_tpl((x.quasi).item), (x.quasi).start as int, (x.quasi).end as int)),
        Expression::Spread(x) => named("SpreadElement"@).insert(0x617267756d656e74int, placed(f_expr((x.argument).item), (x.argument).start as int, (x.argument).end as int)),
        Expression::Arrow(x) => named("ArrowFunctionExpression"@).insert(0x706172616d73int, J::Arr(l_pat(x.params))).insert(0x626f6479int, n_arrow(x.body)),
        Expression::Object(x) => named("ObjectExpression"@).insert(0x70726f70657274696573int, J::Arr(l_prop(x.body))),
        Expression::Function(x) => f_func(x),
        Expression::Class(x) => f_class(x),
    }
}
pub open spec fn okf_expr<'ast>(x0: Expression<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        Expression::Void => false,
        Expression::This(_) => true,
        Expression::Identifier(n) => true,
        Expression::Literal(l) => okf_lit(l),
        Expression::Sequence(x) => okl_expr(x.body),
        Expression::Array(x) => okl_elems(x.body),
        Expression::Member(x) => okf_expr((x.object).item),
        Expression::ComputedMember(x) => okf_expr((x.object).item) && okf_expr((x.property).item),
        Expression::MetaProperty(x) => true,
        Expression::Call(x) => okf_expr((x.callee).item) && okl_expr(x.arguments),
        Expression::Binary(x) => okf_expr((x.left).item) && okf_expr((x.right).item),
        Expression::Prefix(x) => (if x.operator is New { match x.operand.item { Expression::Call(c) => okf_expr((c.callee).item) && okl_expr(c.arguments), _ => okf_expr((x.operand).item), } } else { okf_expr((x.operand).item) }),
        Expression::Postfix(x) => okf_expr((x.operand).item),
        Expression::Conditional(x) => okf_expr((x.test).item) && okf_expr((x.consequent).item) && okf_expr((x.alternate).item),
        Expression::Template(x) => okf_tpl(x),
        Expression::TaggedTemplate(x) => okf_expr((x.tag).item) && okf_tpl((x.quasi).item),
        Expression::Spread(x) => okf_expr((x.argument).item),
        Expression::Arrow(x) => okl_pat(x.params) && okn_arrow(x.body),
        Expression::Object(x) => okl_prop(x.body),
        Expression::Function(x) => okf_func(x),
        Expression::Class(x) => okf_class(x),
    }
}
pub open spec fn f_stmt<'ast>(x0: Statement<'ast>) -> Map<int, J>
    decreases x0, 0int
{
    match x0 {
        Statement::Empty => named("EmptyStatement"@),
        Statement::Debugger => named("DebuggerStatement"@),
        Statement::Expression(x) => named("ExpressionStatement"@).insert(0x65787072657373696f6eint, placed(f_expr((x).item), (x).start as int, (x).end as int)),
        Statement::Declaration(x) => f_declaration(x),
        Statement::Return(x) => named("ReturnStatement"@).insert(0x617267756d656e74int, (match x.value { Some(y) => placed(f_expr((y).item), (y).start as int, (y).end as int), None => J::Null })),
        Statement::Break(x) => named("BreakStatement"@).insert(0x6c6162656cint, (match x.label { Some(y) => placed(f_ident((y).item), (y).start as int, (y).end as int), None => J::Null })),
        Statement::Continue(x) => named("ContinueStatement"@).insert(0x6c6162656cint, (match x.label { Some(y) => placed(f_ident((y).item), (y).start as int, (y).end as int), None => J::Null })),
        Statement::Throw(x) => named("ThrowStatement"@).insert(0x617267756d656e74int, placed(f_expr((x.value).item), (x.value).start as int, (x.value).end as int)),
        Statement::If(x) => named("IfStatement"@).insert(0x74657374int, placed(f_expr((x.test).item), (x.test).start as int, (x.test).end as int)).insert(0x636f6e73657175656e74int, placed(f_stmt((x.consequent).item), (x.consequent).start as int, (x.consequent).end as int)).insert(0x616c7465726e617465int, (match x.alternate { Some(y) => placed(f_stmt((y).item), (y).start as int, (y).end as int), None => J::Null })),
        Statement::While(x) => named("WhileStatement"@).insert(0x74657374int, placed(f_expr((x.test).item), (x.test).start as int, (x.test).end as int)).insert(0x626f6479int, placed(f_stmt((x.body).item), (x.body).start as int, (x.body).end as int)),
        Statement::Do(x) => named("DoWhileStatement"@).insert(0x626f6479int, placed(f_stmt((x.body).item), (x.body).start as int, (x.body).end as int)).insert(0x74657374int, placed(f_expr((x.test).item), (x.test).start as int, (x.test).end as int)),
        Statement::For(x) => named("ForStatement"@).insert(0x696e6974int, (match x.init { Some(y) => placed(f_forinit((y).item), (y).start as int, (y).end as int), None => J::Null })).insert(0x74657374int, (match x.test { Some(y) => placed(f_expr((y).item), (y).start as int, (y).end as int), None => J::Null })).insert(0x757064617465int, (match x.update { Some(y) => placed(f_expr((y).item), (y).start as int, (y).end as int), None => J::Null })).insert(0x626f6479int, placed(f_stmt((x.body).item), (x.body).start as int, (x.body).end as int)),
        Statement::ForIn(x) => named("ForInStatement"@).insert(0x6c656674int, placed(f_forinit((x.left).item), (x.left).start as int, (x.left).end as int)).insert(0x7269676874int, placed(f_expr((x.right).item), (x.right).start as int, (x.right).end as int)).insert(0x626f6479int, placed(f_stmt((x.body).item), (x.body).start as int, (x.body).end as int)),
        Statement::ForOf(x) => named("ForOfStatement"@).insert(0x6c656674int, placed(f_forinit((x.left).item), (x.left).start as int, (x.left).end as int)).insert(0x7269676874int, placed(f_expr((x.right).item), (x.right).start as int, (x.right).end as int)).insert(0x626f6479int, placed(f_stmt((x.body).item), (x.body).start as int, (x.body).end as int)),
        Statement::Try(x) => named("TryStatement"@).insert(0x626c6f636bint, placed(f_block((x.block).item), (x.block).start as int, (x.block).end as int)).insert(0x68616e646c6572int, (match x.handler { Some(y) => placed(f_catch((y).item), (y).start as int, (y).end as int), None => J::Null })).insert(0x66696e616c697a6572int, (match x.finalizer { Some(y) => placed(f_block((y).item), (y).start as int, (y).end as int), None => J::Null })),
        Statement::Block(x) => f_block(x),
        Statement::Labeled(x) => named("LabeledStatement"@).insert(0x6c6162656cint, J::Str((x.label)@)).insert(0x626f6479int, placed(f_stmt((x.body).item), (x.body).start as int, (x.body).end as int)),
        Statement::Function(x) => f_func(x),
        Statement::Class(x) => f_class(x),
        Statement::Switch(x) => named("SwitchStatement"@).insert(0x6469736372696d696e616e74int, placed(f_expr((x.discriminant).item), (x.discriminant).start as int, (x.discriminant).end as int)).insert(0x6361736573int, J::Arr(l_case(x.cases.item.body))),
        Statement::Import(x) => named("ImportDeclaration"@).insert(0x73706563696669657273int, J::Arr(l_imp(x.specifiers))).insert(0x736f75726365int, J::Str((x.source)@)),
    }
}
pub open spec fn okf_stmt<'ast>(x0: Statement<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        Statement::Empty => true,
        Statement::Debugger => true,
        Statement::Expression(x) => okf_expr((x).item),
        Statement::Declaration(x) => okf_declaration(x),
        Statement::Return(x) => (match x.value { Some(y) => okf_expr(y.item), None => true }),
        Statement::Break(x) => true,
        Statement::Continue(x) => true,
        Statement::Throw(x) => okf_expr((x.value).item),
        Statement::If(x) => okf_expr((x.test).item) && okf_stmt((x.consequent).item) && (match x.alternate { Some(y) => okf_stmt(y.item), None => true }),
        Statement::While(x) => okf_expr((x.test).item) && okf_stmt((x.body).item),
        Statement::Do(x) => okf_stmt((x.body).item) && okf_expr((x.test).item),
        Statement::For(x) => (match x.init { Some(y) => okf_forinit(y.item), None => true }) && (match x.test { Some(y) => okf_expr(y.item), None => true }) && (match x.update { Some(y) => okf_expr(y.item), None => true }) && okf_stmt((x.body).item),
        Statement::ForIn(x) => okf_forinit((x.left).item) && okf_expr((x.right).item) && okf_stmt((x.body).item),
        Statement::ForOf(x) => okf_forinit((x.left).item) && okf_expr((x.right).item) && okf_stmt((x.body).item),
        Statement::Try(x) => okf_block((x.block).item) && (match x.handler { Some(y) => okf_catch(y.item), None => true }) && (match x.finalizer { Some(y) => okf_block(y.item), None => true }),
        Statement::Block(x) => okf_block(x),
        Statement::Labeled(x) => okf_stmt((x.body).item),
        Statement::Function(x) => okf_func(x),
        Statement::Class(x) => okf_class(x),
        Statement::Switch(x) => okf_expr((x.discriminant).item) && okl_case(x.cases.item.body),
        Statement::Import(x) => okl_imp(x.specifiers),
    }
}
pub open spec fn f_pat<'ast>(x0: Pattern<'ast>) -> Map<int, J>
    decreases x0, 0int
{
    match x0 {
        Pattern::Void => named("Void"@),
        Pattern::Identifier(n) => named("Identifier"@).insert(0x6e616d65int, J::Str((n)@)),
        Pattern::ObjectPattern { properties } => named("ObjectPattern"@).insert(0x6b657973int, J::Arr(l_prop(properties))),
        Pattern::ArrayPattern { elements } => named("ArrayPattern"@).insert(0x656c656d656e7473int, J::Arr(drop_one(l_pelems(elements)))),
        Pattern::RestElement { argument } => named("RestElement"@).insert(0x617267756d656e74int, placed(f_ident((argument).item), (argument).start as int, (argument).end as int)),
        Pattern::AssignmentPattern { left, right } => named("AssignmentPattern"@).insert(0x6c656674int, placed(f_pat((left).item), (left).start as int, (left).end as int)).insert(0x7269676874int, placed(f_expr((right).item), (right).start as int, (right).end as int)),
    }
}
pub open spec fn okf_pat<'ast>(x0: Pattern<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        Pattern::Void => false,
        Pattern::Identifier(n) => true,
        Pattern::ObjectPattern { properties } => okl_prop(properties),
        Pattern::ArrayPattern { elements } => okl_pelems(elements),
        Pattern::RestElement { argument } => true,
        Pattern::AssignmentPattern { left, right } => okf_pat((left).item) && okf_expr((right).item),
    }
}
pub open spec fn f_prop<'ast>(x0: Property<'ast>) -> Map<int, J>
    decreases x0, 0int
{
    match x0 {
        Property::Shorthand(n) => named("Identifier"@).insert(0x6e616d65int, J::Str((n)@)),
        Property::Literal { key, value } => named("Property"@).insert(0x636f6d7075746564int, J::Bool((key.item is Computed))).insert(0x6b6579int, n_key(key)).insert(0x6d6574686f64int, J::Bool(false)).insert(0x73686f727468616e64int, J::Bool(false)).insert(0x76616c7565int, placed(f_expr((value).item), (value).start as int, (value).end as int)).insert(0x6b696e64int, J::Str("init"@)),
        Property::Method { key, value } => named("Property"@).insert(0x636f6d7075746564int, J::Bool((key.item is Computed))).insert(0x6b6579int, n_key(key)).insert(0x6d6574686f64int, J::Bool(true)).insert(0x73686f727468616e64int, J::Bool(false)).insert(0x76616c7565int, placed(f_func((value).item), (value).start as int, (value).end as int)).insert(0x6b696e64int, J::Str("init"@)),
        Property::Spread { argument } => named("SpreadProperty"@).insert(0x617267756d656e74int, placed(f_expr((argument).item), (argument).start as int, (argument).end as int)),
    }
}
pub open spec fn okf_prop<'ast>(x0: Property<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        Property::Shorthand(n) => true,
        Property::Literal { key, value } => okn_key(key) && okf_expr((value).item),
        Property::Method { key, value } => okn_key(key) && okf_func((value).item),
        Property::Spread { argument } => okf_expr((argument).item),
    }
}
pub open spec fn f_member<'ast>(x0: ClassMember<'ast>) -> Map<int, J>
    decreases x0, 0int
{
    match x0 {
        ClassMember::Error => named("Error"@),
        ClassMember::Method { is_static, key, kind, value } => named("MethodDefinition"@).insert(0x6b696e64int, method_kind(kind)).insert(0x737461746963int, J::Bool(is_static)).insert(0x76616c7565int, placed(f_func((value).item), (value).start as int, (value).end as int)).insert(0x636f6d7075746564int, J::Bool((key.item is Computed))).insert(0x6b6579int, n_key(key)),
        ClassMember::Literal { is_static, key, value } => named("PropertyDefinition"@).insert(0x737461746963int, J::Bool(is_static)).insert(0x76616c7565int, placed(f_expr((value).item), (value).start as int, (value).end as int)).insert(0x636f6d7075746564int, J::Bool((key.item is Computed))).insert(0x6b6579int, n_key(key)),
    }
}
pub open spec fn okf_member<'ast>(x0: ClassMember<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        ClassMember::Error => false,
        ClassMember::Method { is_static, key, kind, value } => okf_func((value).item) && okn_key(key),
        ClassMember::Literal { is_static, key, value } => okf_expr((value).item) && okn_key(key),
    }
}
pub open spec fn f_declr<'ast>(x0: Declarator<'ast>) -> Map<int, J>
    decreases x0, 0int
{
    named("VariableDeclarator"@).insert(0x6964int, placed(f_pat((x0.id).item), (x0.id).start as int, (x0.id).end as int)).insert(0x696e6974int, (match x0.init { Some(y) => placed(f_expr((y).item), (y).start as int, (y).end as int), None => J::Null }))
}
pub open spec fn okf_declr<'ast>(x0: Declarator<'ast>) -> bool
    decreases x0, 0int
{
    okf_pat((x0.id).item) && (match x0.init { Some(y) => okf_expr(y.item), None => true })
}
pub open spec fn f_declaration<'ast>(x0: DeclarationStatement<'ast>) -> Map<int, J>
    decreases x0, 0int
{
    named("VariableDeclaration"@).insert(0x6b696e64int, declaration_kind(x0.kind)).insert(0x6465636c61726174696f6e73int, J::Arr(l_declr(x0.declarators)))
}
pub open spec fn okf_declaration<'ast>(x0: DeclarationStatement<'ast>) -> bool
    decreases x0, 0int
{
    okl_declr(x0.declarators)
}
pub open spec fn f_case<'ast>(x0: SwitchCase<'ast>) -> Map<int, J>
    decreases x0, 0int
{
    named("SwitchCase"@).insert(0x74657374int, (match x0.test { Some(y) => placed(f_expr((y).item), (y).start as int, (y).end as int), None => J::Null })).insert(0x636f6e73657175656e74int, J::Arr(l_stmt(x0.consequent)))
}
pub open spec fn okf_case<'ast>(x0: SwitchCase<'ast>) -> bool
    decreases x0, 0int
{
    (match x0.test { Some(y) => okf_expr(y.item), None => true }) && okl_stmt(x0.consequent)
}
pub open spec fn f_catch<'ast>(x0: CatchClause<'ast>) -> Map<int, J>
    decreases x0, 0int
{
    named("CatchClause"@).insert(0x706172616dint, placed(f_pat((x0.param).item), (x0.param).start as int, (x0.param).end as int)).insert(0x626f6479int, placed(f_block((x0.body).item), (x0.body).start as int, (x0.body).end as int))
}
pub open spec fn okf_catch<'ast>(x0: CatchClause<'ast>) -> bool
    decreases x0, 0int
{
    okf_pat((x0.param).item) && okf_block((x0.body).item)
}
pub open spec fn f_forinit<'ast>(x0: ForInit<'ast>) -> Map<int, J>
    decreases x0, 0int
{
    match x0 {
        ForInit::Declaration(d) => f_declaration(d),
        ForInit::Expression(k) => f_expr((*k).item),
    }
}
pub open spec fn okf_forinit<'ast>(x0: ForInit<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        ForInit::Declaration(d) => okf_declaration(d),
        ForInit::Expression(k) => okf_expr((*k).item),
    }
}
pub open spec fn f_imp<'ast>(x0: ForImportSpecifier<'ast>) -> Map<int, J>
    decreases x0, 0int
{
    match x0 {
        ForImportSpecifier::ImportDefaultSpecifier(s) => named("ImportDefaultSpecifier"@).insert(0x6c6f63616cint, placed(f_ident((s.local).item), (s.local).start as int, (s.local).end as int)),
        ForImportSpecifier::ImportNamespaceSpecifier(s) => named("ImportNamespaceSpecifier"@).insert(0x6c6f63616cint, placed(f_ident((s.local).item), (s.local).start as int, (s.local).end as int)),
        ForImportSpecifier::ImportSpecifier(s) => named("ImportSpecifier"@).insert(0x696d706f72746564int, placed(f_ident((s.imported).item), (s.imported).start as int, (s.imported).end as int)).insert(0x6c6f63616cint, placed(f_ident((s.local).item), (s.local).start as int, (s.local).end as int)),
    }
}
pub open spec fn okf_imp<'ast>(x0: ForImportSpecifier<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        ForImportSpecifier::ImportDefaultSpecifier(s) => true,
        ForImportSpecifier::ImportNamespaceSpecifier(s) => true,
        ForImportSpecifier::ImportSpecifier(s) => true,
    }
}
pub open spec fn f_ident<'ast>(x0: &'ast str) -> Map<int, J>
{
    named("Identifier"@).insert(0x6e616d65int, J::Str((x0)@))
}
pub open spec fn f_block<'ast>(x0: Block<'ast, Statement<'ast>>) -> Map<int, J>
    decreases x0, 0int
{
    named("BlockStatement"@).insert(0x626f6479int, J::Arr(l_stmt(x0.body)))
}
pub open spec fn okf_block<'ast>(x0: Block<'ast, Statement<'ast>>) -> bool
    decreases x0, 0int
{
    okl_stmt(x0.body)
}
pub open spec fn f_mblock<'ast>(x0: Block<'ast, ClassMember<'ast>>) -> Map<int, J>
    decreases x0, 0int
{
    named("ClassBody"@).insert(0x626f6479int, J::Arr(l_member(x0.body)))
}
pub open spec fn okf_mblock<'ast>(x0: Block<'ast, ClassMember<'ast>>) -> bool
    decreases x0, 0int
{
    okl_member(x0.body)
}
pub open spec fn f_func<'ast, N: JName>(x0: Function<'ast, N>) -> Map<int, J>
    decreases x0, 0int
{
    named(N::jfun()).insert(0x67656e657261746f72int, J::Bool(x0.generator)).insert(0x6964int, (x0.name).jn()).insert(0x706172616d73int, J::Arr(l_pat(x0.params))).insert(0x626f6479int, placed(f_block((x0.body).item), (x0.body).start as int, (x0.body).end as int))
}
pub open spec fn okf_func<'ast, N: JName>(x0: Function<'ast, N>) -> bool
    decreases x0, 0int
{
    okl_pat(x0.params) && okf_block((x0.body).item)
}
pub open spec fn f_class<'ast, N: JName>(x0: Class<'ast, N>) -> Map<int, J>
    decreases x0, 0int
{
    named(N::jclass()).insert(0x6964int, (x0.name).jn()).insert(0x7375706572436c617373int, (match x0.extends { Some(y) => placed(f_expr((y).item), (y).start as int, (y).end as int), None => J::Null })).insert(0x626f6479int, placed(f_mblock((x0.body).item), (x0.body).start as int, (x0.body).end as int))
}
pub open spec fn okf_class<'ast, N: JName>(x0: Class<'ast, N>) -> bool
    decreases x0, 0int
{
    (match x0.extends { Some(y) => okf_expr(y.item), None => true }) && okf_mblock((x0.body).item)
}
pub open spec fn f_tpl<'ast>(x0: TemplateLiteral<'ast>) -> Map<int, J>
    decreases x0, 0int
{
    named("TemplateLiteral"@).insert(0x717561736973int, J::Arr(l_quasis(x0.quasis))).insert(0x65787072657373696f6e73int, J::Arr(l_expr(x0.expressions)))
}
pub open spec fn okf_tpl<'ast>(x0: TemplateLiteral<'ast>) -> bool
    decreases x0, 0int
{
    okl_expr(x0.expressions) && okl_quasis(x0.quasis)
}
pub open spec fn l_expr<'ast>(x0: NodeList<'ast, Expression<'ast>>) -> Seq<J>
    decreases x0
{
    match x0 { List::Nil => Seq::empty(), List::Cons(h, tl) => seq![placed(f_expr((*h).item), (*h).start as int, (*h).end as int)] + l_expr(*tl) }
}
pub open spec fn okl_expr<'ast>(x0: NodeList<'ast, Expression<'ast>>) -> bool
    decreases x0
{
    match x0 { List::Nil => true, List::Cons(h, tl) => okf_expr((*h).item) && okl_expr(*tl) }
}
pub open spec fn l_stmt<'ast>(x0: NodeList<'ast, Statement<'ast>>) -> Seq<J>
    decreases x0
{
    match x0 { List::Nil => Seq::empty(), List::Cons(h, tl) => seq![placed(f_stmt((*h).item), (*h).start as int, (*h).end as int)] + l_stmt(*tl) }
}
pub open spec fn okl_stmt<'ast>(x0: NodeList<'ast, Statement<'ast>>) -> bool
    decreases x0
{
    match x0 { List::Nil => true, List::Cons(h, tl) => okf_stmt((*h).item) && okl_stmt(*tl) }
}
pub open spec fn l_pat<'ast>(x0: NodeList<'ast, Pattern<'ast>>) -> Seq<J>
    decreases x0
{
    match x0 { List::Nil => Seq::empty(), List::Cons(h, tl) => seq![placed(f_pat((*h).item), (*h).start as int, (*h).end as int)] + l_pat(*tl) }
}
pub open spec fn okl_pat<'ast>(x0: NodeList<'ast, Pattern<'ast>>) -> bool
    decreases x0
{
    match x0 { List::Nil => true, List::Cons(h, tl) => okf_pat((*h).item) && okl_pat(*tl) }
}
pub open spec fn l_prop<'ast>(x0: NodeList<'ast, Property<'ast>>) -> Seq<J>
    decreases x0
{
    match x0 { List::Nil => Seq::empty(), List::Cons(h, tl) => seq![placed(f_prop((*h).item), (*h).start as int, (*h).end as int)] + l_prop(*tl) }
}
pub open spec fn okl_prop<'ast>(x0: NodeList<'ast, Property<'ast>>) -> bool
    decreases x0
{
    match x0 { List::Nil => true, List::Cons(h, tl) => okf_prop((*h).item) && okl_prop(*tl) }
}
pub open spec fn l_member<'ast>(x0: NodeList<'ast, ClassMember<'ast>>) -> Seq<J>
    decreases x0
{
    match x0 { List::Nil => Seq::empty(), List::Cons(h, tl) => seq![placed(f_member((*h).item), (*h).start as int, (*h).end as int)] + l_member(*tl) }
}
pub open spec fn okl_member<'ast>(x0: NodeList<'ast, ClassMember<'ast>>) -> bool
    decreases x0
{
    match x0 { List::Nil => true, List::Cons(h, tl) => okf_member((*h).item) && okl_member(*tl) }
}
pub open spec fn l_declr<'ast>(x0: NodeList<'ast, Declarator<'ast>>) -> Seq<J>
    decreases x0
{
    match x0 { List::Nil => Seq::empty(), List::Cons(h, tl) => seq![placed(f_declr((*h).item), (*h).start as int, (*h).end as int)] + l_declr(*tl) }
}
pub open spec fn okl_declr<'ast>(x0: NodeList<'ast, Declarator<'ast>>) -> bool
    decreases x0
{
    match x0 { List::Nil => true, List::Cons(h, tl) => okf_declr((*h).item) && okl_declr(*tl) }
}
pub open spec fn l_case<'ast>(x0: NodeList<'ast, SwitchCase<'ast>>) -> Seq<J>
    decreases x0
{
    match x0 { List::Nil => Seq::empty(), List::Cons(h, tl) => seq![placed(f_case((*h).item), (*h).start as int, (*h).end as int)] + l_case(*tl) }
}
pub open spec fn okl_case<'ast>(x0: NodeList<'ast, SwitchCase<'ast>>) -> bool
    decreases x0
{
    match x0 { List::Nil => true, List::Cons(h, tl) => okf_case((*h).item) && okl_case(*tl) }
}
pub open spec fn l_imp<'ast>(x0: NodeList<'ast, ForImportSpecifier<'ast>>) -> Seq<J>
    decreases x0
{
    match x0 { List::Nil => Seq::empty(), List::Cons(h, tl) => seq![placed(f_imp((*h).item), (*h).start as int, (*h).end as int)] + l_imp(*tl) }
}
pub open spec fn okl_imp<'ast>(x0: NodeList<'ast, ForImportSpecifier<'ast>>) -> bool
    decreases x0
{
    match x0 { List::Nil => true, List::Cons(h, tl) => okf_imp((*h).item) && okl_imp(*tl) }
}
pub open spec fn l_elems<'ast>(x0: NodeList<'ast, Expression<'ast>>) -> Seq<J>
    decreases x0
{
    match x0 { List::Nil => Seq::empty(), List::Cons(h, tl) => seq![if h.item is Void { J::Null } else { placed(f_expr((*h).item), (*h).start as int, (*h).end as int) }] + l_elems(*tl) }
}
pub open spec fn okl_elems<'ast>(x0: NodeList<'ast, Expression<'ast>>) -> bool
    decreases x0
{
    match x0 { List::Nil => true, List::Cons(h, tl) => (h.item is Void || okf_expr((*h).item)) && okl_elems(*tl) }
}
pub open spec fn l_pelems<'ast>(x0: NodeList<'ast, Pattern<'ast>>) -> Seq<J>
    decreases x0
{
    match x0 { List::Nil => Seq::empty(), List::Cons(h, tl) => seq![if h.item is Void { J::Null } else { placed(f_pat((*h).item), (*h).start as int, (*h).end as int) }] + l_pelems(*tl) }
}
pub open spec fn okl_pelems<'ast>(x0: NodeList<'ast, Pattern<'ast>>) -> bool
    decreases x0
{
    match x0 { List::Nil => true, List::Cons(h, tl) => (h.item is Void || okf_pat((*h).item)) && okl_pelems(*tl) }
}
pub open spec fn n_key<'ast>(x0: Node<'ast, PropertyKey<'ast>>) -> J
    decreases x0, 1int
{
    match x0.item { PropertyKey::Computed(k) => placed(f_expr((k).item), (k).start as int, (k).end as int), PropertyKey::Literal(n) => placed(f_ident(n), x0.start as int, x0.end as int), PropertyKey::Binary(n) => placed(f_ident(n), x0.start as int, x0.end as int) }
}
pub open spec fn okn_key<'ast>(x0: Node<'ast, PropertyKey<'ast>>) -> bool
    decreases x0, 1int
{
    match x0.item { PropertyKey::Computed(k) => okf_expr(k.item), _ => true }
}
pub open spec fn n_arrow<'ast>(x0: ArrowBody<'ast>) -> J
    decreases x0, 2int
{
    match x0 { ArrowBody::Expression(k) => placed(f_expr((k).item), (k).start as int, (k).end as int), ArrowBody::Block(b) => placed(f_block((b).item), (b).start as int, (b).end as int) }
}
pub open spec fn okn_arrow<'ast>(x0: ArrowBody<'ast>) -> bool
    decreases x0, 2int
{
    match x0 { ArrowBody::Expression(k) => okf_expr(k.item), ArrowBody::Block(b) => okf_block(b.item) }
}
pub open spec fn f_quasi<'ast>(tail: bool, text: &'ast str) -> Map<int, J>
{
    named("TemplateElement"@).insert(0x7461696cint, J::Bool(tail)).insert(0x76616c7565int, J::Obj(Map::empty().insert(0x726177int, J::Str(text@)).insert(0x636f6f6b6564int, J::Str(text@))))
}
pub open spec fn l_quasis<'ast>(x0: NodeList<'ast, &'ast str>) -> Seq<J>
    decreases x0
{
    match x0 { List::Nil => Seq::empty(), List::Cons(q, tl) => seq![placed(f_quasi(*tl is Nil, (*q).item), (*q).start + 1, (*q).end - 1)] + l_quasis(*tl) }
}
pub open spec fn okl_quasis<'ast>(x0: NodeList<'ast, &'ast str>) -> bool
    decreases x0
{
    match x0 { List::Nil => true, List::Cons(q, tl) => (*q).start < u32::MAX && (*q).end > 0 && okl_quasis(*tl) }
}
pub open spec fn f_lit<'ast>(x0: Literal<'ast>) -> Map<int, J>
{
    match x0 {
        Literal::Undefined => named("Literal"@).insert(0x726177int, J::Str("undefined"@)),
        Literal::Null => named("Literal"@).insert(0x76616c7565int, J::Null).insert(0x726177int, J::Str("null"@)),
        Literal::True => named("Literal"@).insert(0x76616c7565int, J::Bool(true)).insert(0x726177int, J::Str("true"@)),
        Literal::False => named("Literal"@).insert(0x76616c7565int, J::Bool(false)).insert(0x726177int, J::Str("false"@)),
        Literal::Number(s) => named("Literal"@).insert(0x76616c7565int, number_value(s@)).insert(0x726177int, J::Str((s)@)),
        Literal::Binary(s) => named("Literal"@).insert(0x76616c7565int, integer(text_sub(s@, 2, text_len(s@)), 2)).insert(0x726177int, J::Str((s)@)),
        Literal::String(s) => named("Literal"@).insert(0x76616c7565int, J::Str(text_sub(s@, 1, text_len(s@) - 1))).insert(0x726177int, J::Str((s)@)),
        Literal::RegEx(s) => named("Literal"@).insert(0x7265676578int, regex_value(s@)).insert(0x726177int, J::Str((s)@)),
    }
}
pub open spec fn okf_lit<'ast>(x0: Literal<'ast>) -> bool
{
    match x0 {
        Literal::Number(s) => number_text(s@),
        Literal::Binary(s) => binary_text(s@),
        Literal::String(s) => string_text(s@),
        Literal::RegEx(s) => regex_text(s@),
        _ => true,
    }
}
pub open spec fn op_name(op: OperatorKind) -> Seq<char> { match op { OperatorKind::FatArrow => "=>"@, OperatorKind::New => "new"@, OperatorKind::Increment => "++"@, OperatorKind::Decrement => "--"@, OperatorKind::LogicalNot => "!"@, OperatorKind::BitwiseNot => "~"@, OperatorKind::Typeof => "typeof"@, OperatorKind::Void => "void"@, OperatorKind::Delete => "delete"@, OperatorKind::Multiplication => "*"@, OperatorKind::Division => "/"@, OperatorKind::Remainder => "%"@, OperatorKind::Exponent => "**"@, OperatorKind::Addition => "+"@, OperatorKind::Subtraction => "-"@, OperatorKind::BitShiftLeft => "<<"@, OperatorKind::BitShiftRight => ">>"@, OperatorKind::UBitShiftRight => ">>>"@, OperatorKind::Lesser => "<"@, OperatorKind::LesserEquals => "<="@, OperatorKind::Greater => ">"@, OperatorKind::GreaterEquals => ">="@, OperatorKind::Instanceof => "instanceof"@, OperatorKind::In => "in"@, OperatorKind::StrictEquality => "==="@, OperatorKind::StrictInequality => "!=="@, OperatorKind::Equality => "=="@, OperatorKind::Inequality => "!="@, OperatorKind::BitwiseAnd => "&"@, OperatorKind::BitwiseXor => "^"@, OperatorKind::BitwiseOr => "|"@, OperatorKind::LogicalAnd => "&&"@, OperatorKind::LogicalOr => "||"@, OperatorKind::Conditional => "?"@, OperatorKind::Assign => "="@, OperatorKind::AddAssign => "+="@, OperatorKind::SubtractAssign => "-="@, OperatorKind::ExponentAssign => "**="@, OperatorKind::MultiplyAssign => "*="@, OperatorKind::DivideAssign => "/="@, OperatorKind::RemainderAssign => "%="@, OperatorKind::BSLAssign => "<<="@, OperatorKind::BSRAssign => ">>="@, OperatorKind::UBSRAssign => ">>>="@, OperatorKind::BitAndAssign => "&="@, OperatorKind::BitXorAssign => "^="@, OperatorKind::BitOrAssign => "|="@, OperatorKind::Spread => "..."@, } }
pub open spec fn key_raw() -> int { 0x726177int }
pub open spec fn key_cooked() -> int { 0x636f6f6b6564int }
pub open spec fn key_value() -> int { 0x76616c7565int }
pub open spec fn key_pattern() -> int { 0x7061747465726eint }
pub open spec fn key_flags() -> int { 0x666c616773int }
pub open spec fn key_type() -> int { 0x74797065int }
pub open spec fn key_start() -> int { 0x7374617274int }
pub open spec fn key_end() -> int { 0x656e64int }
pub open spec fn key_body() -> int { 0x626f6479int }
