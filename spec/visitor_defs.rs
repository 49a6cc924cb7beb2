// written by gen_visitor.py
pub enum RefEv<'ast> { Use(Identifier<'ast>), Decl(Identifier<'ast>), Enter(ScopeKind), Leave, This }
pub struct Entry<'ast> { pub node: ParentNode<'ast>, pub parents: Seq<ParentNode<'ast>> }
pub enum NodeEv<'ast> { EThis(ExpressionNode<'ast>), EIdentifier(Identifier<'ast>, ExpressionNode<'ast>), ELiteral(Literal<'ast>, ExpressionNode<'ast>), ESequence(SequenceExpression<'ast>, ExpressionNode<'ast>), EArray(ArrayExpression<'ast>, ExpressionNode<'ast>), EMember(MemberExpression<'ast>, ExpressionNode<'ast>), EComputedMember(ComputedMemberExpression<'ast>, ExpressionNode<'ast>), EMetaProperty(MetaPropertyExpression<'ast>, ExpressionNode<'ast>), ECall(CallExpression<'ast>, ExpressionNode<'ast>), EBinary(BinaryExpression<'ast>, ExpressionNode<'ast>), EPrefix(PrefixExpression<'ast>, ExpressionNode<'ast>), EPostfix(PostfixExpression<'ast>, ExpressionNode<'ast>), EConditional(ConditionalExpression<'ast>, ExpressionNode<'ast>), ETemplate(TemplateLiteral<'ast>, ExpressionNode<'ast>), ETaggedTemplate(TaggedTemplateExpression<'ast>, ExpressionNode<'ast>), ESpread(SpreadExpression<'ast>, ExpressionNode<'ast>), EArrow(ArrowExpression<'ast>, ExpressionNode<'ast>), EObject(ObjectExpression<'ast>, ExpressionNode<'ast>), EFunction(FunctionExpression<'ast>, ExpressionNode<'ast>), EClass(ClassExpression<'ast>, ExpressionNode<'ast>), SExpression(ExpressionNode<'ast>, StatementNode<'ast>), SDeclaration(DeclarationStatement<'ast>, StatementNode<'ast>), SReturn(ReturnStatement<'ast>, StatementNode<'ast>), SBreak(BreakStatement<'ast>, StatementNode<'ast>), SContinue(ContinueStatement<'ast>, StatementNode<'ast>), SThrow(ThrowStatement<'ast>, StatementNode<'ast>), SIf(IfStatement<'ast>, StatementNode<'ast>), SWhile(WhileStatement<'ast>, StatementNode<'ast>), SDo(DoStatement<'ast>, StatementNode<'ast>), SFor(ForStatement<'ast>, StatementNode<'ast>), SForIn(ForInStatement<'ast>, StatementNode<'ast>), SForOf(ForOfStatement<'ast>, StatementNode<'ast>), STry(TryStatement<'ast>, StatementNode<'ast>), SBlock(BlockStatement<'ast>, StatementNode<'ast>), SLabeled(LabeledStatement<'ast>, StatementNode<'ast>), SSwitch(SwitchStatement<'ast>, StatementNode<'ast>), SFunction(FunctionStatement<'ast>, StatementNode<'ast>), SClass(ClassStatement<'ast>, StatementNode<'ast>), SImport(ImportDeclaration<'ast>, StatementNode<'ast>), List(StatementList<'ast>) }
pub open spec fn refs_expr<'ast>(x0: ExpressionNode<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0.item {
        Expression::Void => t,
        Expression::This(_) => t,
        Expression::Identifier(x) => t.push(RefEv::Use(x)),
        Expression::Literal(x) => t,
        Expression::Sequence(x) => refs_exprs(x.body, t),
        Expression::Array(x) => refs_exprs(x.body, t),
        Expression::Member(x) => refs_expr(x.object, t),
        Expression::ComputedMember(x) => refs_expr(x.property, refs_expr(x.object, t)),
        Expression::MetaProperty(x) => t,
        Expression::Call(x) => refs_exprs(x.arguments, refs_expr(x.callee, t)),
        Expression::Binary(x) => refs_expr(x.right, refs_expr(x.left, t)),
        Expression::Prefix(x) => refs_expr(x.operand, t),
        Expression::Postfix(x) => refs_expr(x.operand, t),
        Expression::Conditional(x) => refs_expr(x.alternate, refs_expr(x.consequent, refs_expr(x.test, t))),
        Expression::Template(x) => refs_exprs(x.expressions, t),
        Expression::TaggedTemplate(x) => refs_exprs(x.quasi.item.expressions, refs_expr(x.tag, t)),
        Expression::Spread(x) => refs_expr(x.argument, t),
        Expression::Arrow(x) => refs_arrow(x.body, refs_pats(x.params, t.push(RefEv::Enter(ScopeKind::Function)))).push(RefEv::Leave),
        Expression::Object(x) => refs_props(x.body, t),
        Expression::Function(x) => refs_func(x, t),
        Expression::Class(x) => refs_class(x, t),
    }
}
pub open spec fn refs_stmt<'ast>(x0: StatementNode<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0.item {
        Statement::Empty => t,
        Statement::Debugger => t,
        Statement::Expression(x) => refs_expr(x, t),
        Statement::Declaration(x) => refs_decls(x.declarators, t),
        Statement::Return(x) => refs_oexpr(x.value, t),
        Statement::Break(x) => t,
        Statement::Continue(x) => t,
        Statement::Throw(x) => refs_expr(x.value, t),
        Statement::If(x) => refs_ostmt(x.alternate, refs_stmt(x.consequent, refs_expr(x.test, t))),
        Statement::While(x) => refs_stmt(x.body, refs_expr(x.test, t)),
        Statement::Do(x) => refs_expr(x.test, refs_stmt(x.body, t)),
        Statement::For(x) => refs_stmt(x.body, refs_oexpr(x.update, refs_oexpr(x.test, refs_oforinit(x.init, t)))),
        Statement::ForIn(x) => refs_stmt(x.body, refs_expr(x.right, refs_forinit(x.left.item, t))),
        Statement::ForOf(x) => refs_stmt(x.body, refs_expr(x.right, refs_forinit(x.left.item, t))),
        Statement::Try(x) => refs_oblock(x.finalizer, refs_ocatch(x.handler, refs_block(x.block.item, t))),
        Statement::Block(x) => refs_block(x, t),
        Statement::Labeled(x) => refs_stmt(x.body, t),
        Statement::Switch(x) => refs_cases(x.cases.item.body, refs_expr(x.discriminant, t).push(RefEv::Enter(ScopeKind::Block))).push(RefEv::Leave),
        Statement::Function(x) => refs_func(x, t.push(RefEv::Decl(x.name.0.item))),
        Statement::Class(x) => refs_class(x, t.push(RefEv::Decl(x.name.0.item))),
        Statement::Import(x) => refs_imports(x.specifiers, t),
    }
}
pub open spec fn refs_pat<'ast>(x0: Pattern<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        Pattern::Void => t,
        Pattern::Identifier(n) => t.push(RefEv::Decl(n)),
        Pattern::ObjectPattern { properties } => refs_bprops(properties, t),
        Pattern::ArrayPattern { elements } => refs_pats(elements, t),
        Pattern::RestElement { argument } => t.push(RefEv::Decl(argument.item)),
        Pattern::AssignmentPattern { left, right } => refs_expr(right, refs_pat(left.item, t)),
    }
}
pub open spec fn refs_bprop<'ast>(x0: Property<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 1int
{
    match x0 {
        Property::Shorthand(n) => t.push(RefEv::Decl(n)),
        Property::Literal { key, value } => refs_bexpr(value, refs_key(key.item, t)),
        Property::Method { .. } => refs_prop(x0, t),
        Property::Spread { argument } => refs_bexpr(argument, t),
    }
}
pub open spec fn refs_bexpr<'ast>(x0: ExpressionNode<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 1int
{
    match x0.item {
        Expression::Identifier(n) => t.push(RefEv::Decl(n)),
        Expression::Object(o) => refs_bprops(o.body, t),
        Expression::Array(a) => refs_bexprs(a.body, t),
        Expression::Spread(s) => refs_bexpr(s.argument, t),
        Expression::Binary(BinaryExpression { operator: OperatorKind::Assign, left, right }) => refs_expr(right, refs_bexpr(left, t)),
        _ => refs_expr(x0, t),
    }
}
pub open spec fn refs_prop<'ast>(x0: Property<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        Property::Shorthand(n) => t.push(RefEv::Use(n)),
        Property::Literal { key, value } => refs_expr(value, refs_key(key.item, t)),
        Property::Method { key, value } => refs_func(value.item, refs_key(key.item, t)),
        Property::Spread { argument } => refs_expr(argument, t),
    }
}
pub open spec fn refs_key<'ast>(x0: PropertyKey<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        PropertyKey::Computed(k) => refs_expr(k, t),
        _ => t,
    }
}
pub open spec fn refs_member<'ast>(x0: ClassMember<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        ClassMember::Error => t,
        ClassMember::Method { is_static, key, kind, value } => refs_func(value.item, refs_key(key.item, t)),
        ClassMember::Literal { is_static, key, value } => refs_expr(value, refs_key(key.item, t)),
    }
}
pub open spec fn refs_func<'ast, N>(x0: Function<'ast, N>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    refs_body(x0.body.item.body, refs_pats(x0.params, t.push(RefEv::Enter(ScopeKind::Function)))).push(RefEv::Leave)
}
pub open spec fn refs_class<'ast, N>(x0: Class<'ast, N>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    refs_members(x0.body.item.body, refs_oexpr(x0.extends, t))
}
pub open spec fn refs_arrow<'ast>(x0: ArrowBody<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        ArrowBody::Expression(k) => refs_expr(k, t),
        ArrowBody::Block(b) => refs_body(b.item.body, t),
    }
}
pub open spec fn refs_block<'ast>(x0: Block<'ast, Statement<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    refs_body(x0.body, t.push(RefEv::Enter(ScopeKind::Block))).push(RefEv::Leave)
}
pub open spec fn refs_body<'ast>(x0: StatementList<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 1int
{
    refs_stmts(x0, t)
}
pub open spec fn refs_declr<'ast>(x0: Declarator<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    refs_oexpr(x0.init, refs_pat(x0.id.item, t))
}
pub open spec fn refs_forinit<'ast>(x0: ForInit<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        ForInit::Declaration(d) => refs_decls(d.declarators, t),
        ForInit::Expression(k) => refs_expr(k, t),
    }
}
pub open spec fn refs_catch<'ast>(x0: CatchClause<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    refs_body(x0.body.item.body, refs_pat(x0.param.item, t.push(RefEv::Enter(ScopeKind::Block)))).push(RefEv::Leave)
}
pub open spec fn refs_case<'ast>(x0: SwitchCase<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    refs_body(x0.consequent, refs_oexpr(x0.test, t))
}
pub open spec fn refs_import<'ast>(x0: ForImportSpecifier<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        ForImportSpecifier::ImportSpecifier(s) => t.push(RefEv::Decl(s.local.item)),
        ForImportSpecifier::ImportDefaultSpecifier(s) => t.push(RefEv::Decl(s.local.item)),
        ForImportSpecifier::ImportNamespaceSpecifier(s) => t.push(RefEv::Decl(s.local.item)),
    }
}
pub open spec fn refs_oexpr<'ast>(x0: Option<ExpressionNode<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        None => t,
        Some(y) => refs_expr(y, t),
    }
}
pub open spec fn refs_ostmt<'ast>(x0: Option<StatementNode<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        None => t,
        Some(y) => refs_stmt(y, t),
    }
}
pub open spec fn refs_oforinit<'ast>(x0: Option<Node<'ast, ForInit<'ast>>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        None => t,
        Some(y) => refs_forinit(y.item, t),
    }
}
pub open spec fn refs_ocatch<'ast>(x0: Option<Node<'ast, CatchClause<'ast>>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        None => t,
        Some(y) => refs_catch(y.item, t),
    }
}
pub open spec fn refs_oblock<'ast>(x0: Option<BlockNode<'ast, Statement<'ast>>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        None => t,
        Some(y) => refs_block(y.item, t),
    }
}
pub open spec fn refs_exprs<'ast>(x0: NodeList<'ast, Expression<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => refs_exprs(*tl, refs_expr((*h), t)),
    }
}
pub open spec fn refs_stmts<'ast>(x0: NodeList<'ast, Statement<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => refs_stmts(*tl, refs_stmt((*h), t)),
    }
}
pub open spec fn refs_pats<'ast>(x0: NodeList<'ast, Pattern<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => refs_pats(*tl, refs_pat((*h).item, t)),
    }
}
pub open spec fn refs_bprops<'ast>(x0: NodeList<'ast, Property<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 1int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => refs_bprops(*tl, refs_bprop((*h).item, t)),
    }
}
pub open spec fn refs_bexprs<'ast>(x0: NodeList<'ast, Expression<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 1int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => refs_bexprs(*tl, refs_bexpr((*h), t)),
    }
}
pub open spec fn refs_props<'ast>(x0: NodeList<'ast, Property<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => refs_props(*tl, refs_prop((*h).item, t)),
    }
}
pub open spec fn refs_members<'ast>(x0: NodeList<'ast, ClassMember<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => refs_members(*tl, refs_member((*h).item, t)),
    }
}
pub open spec fn refs_decls<'ast>(x0: NodeList<'ast, Declarator<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => refs_decls(*tl, refs_declr((*h).item, t)),
    }
}
pub open spec fn refs_cases<'ast>(x0: NodeList<'ast, SwitchCase<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => refs_cases(*tl, refs_case((*h).item, t)),
    }
}
pub open spec fn refs_imports<'ast>(x0: NodeList<'ast, ForImportSpecifier<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => refs_imports(*tl, refs_import((*h).item, t)),
    }
}
pub open spec fn sc_expr<'ast>(x0: ExpressionNode<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0.item {
        Expression::Void => t,
        Expression::This(_) => t.push(RefEv::This),
        Expression::Identifier(x) => t.push(RefEv::Use(x)),
        Expression::Literal(x) => t,
        Expression::Sequence(x) => sc_exprs(x.body, t),
        Expression::Array(x) => sc_exprs(x.body, t),
        Expression::Member(x) => sc_expr(x.object, t),
        Expression::ComputedMember(x) => sc_expr(x.property, sc_expr(x.object, t)),
        Expression::MetaProperty(x) => t,
        Expression::Call(x) => sc_exprs(x.arguments, sc_expr(x.callee, t)),
        Expression::Binary(x) => sc_expr(x.right, sc_expr(x.left, t)),
        Expression::Prefix(x) => sc_expr(x.operand, t),
        Expression::Postfix(x) => sc_expr(x.operand, t),
        Expression::Conditional(x) => sc_expr(x.alternate, sc_expr(x.consequent, sc_expr(x.test, t))),
        Expression::Template(x) => sc_exprs(x.expressions, t),
        Expression::TaggedTemplate(x) => sc_exprs(x.quasi.item.expressions, sc_expr(x.tag, t)),
        Expression::Spread(x) => sc_expr(x.argument, t),
        Expression::Arrow(x) => sc_arrow(x.body, sc_pats(x.params, t.push(RefEv::Enter(ScopeKind::Function)))).push(RefEv::Leave),
        Expression::Object(x) => sc_props(x.body, t),
        Expression::Function(x) => sc_func(x, t),
        Expression::Class(x) => sc_class(x, t),
    }
}
pub open spec fn sc_stmt<'ast>(x0: StatementNode<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0.item {
        Statement::Empty => t,
        Statement::Debugger => t,
        Statement::Expression(x) => sc_expr(x, t),
        Statement::Declaration(x) => sc_decls(x.declarators, t),
        Statement::Return(x) => sc_oexpr(x.value, t),
        Statement::Break(x) => t,
        Statement::Continue(x) => t,
        Statement::Throw(x) => sc_expr(x.value, t),
        Statement::If(x) => sc_ostmt(x.alternate, sc_stmt(x.consequent, sc_expr(x.test, t))),
        Statement::While(x) => sc_stmt(x.body, sc_expr(x.test, t)),
        Statement::Do(x) => sc_expr(x.test, sc_stmt(x.body, t)),
        Statement::For(x) => sc_stmt(x.body, sc_oexpr(x.update, sc_oexpr(x.test, sc_oforinit(x.init, t)))),
        Statement::ForIn(x) => sc_stmt(x.body, sc_expr(x.right, sc_forinit(x.left.item, t))),
        Statement::ForOf(x) => sc_stmt(x.body, sc_expr(x.right, sc_forinit(x.left.item, t))),
        Statement::Try(x) => sc_oblock(x.finalizer, sc_ocatch(x.handler, sc_block(x.block.item, t))),
        Statement::Block(x) => sc_block(x, t),
        Statement::Labeled(x) => sc_stmt(x.body, t),
        Statement::Switch(x) => sc_cases(x.cases.item.body, sc_expr(x.discriminant, t).push(RefEv::Enter(ScopeKind::Block))).push(RefEv::Leave),
        Statement::Function(x) => sc_func(x, t.push(RefEv::Decl(x.name.0.item))),
        Statement::Class(x) => sc_class(x, t.push(RefEv::Decl(x.name.0.item))),
        Statement::Import(x) => sc_imports(x.specifiers, t),
    }
}
pub open spec fn sc_pat<'ast>(x0: Pattern<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        Pattern::Void => t,
        Pattern::Identifier(n) => t.push(RefEv::Decl(n)),
        Pattern::ObjectPattern { properties } => sc_bprops(properties, t),
        Pattern::ArrayPattern { elements } => sc_pats(elements, t),
        Pattern::RestElement { argument } => t.push(RefEv::Decl(argument.item)),
        Pattern::AssignmentPattern { left, right } => sc_expr(right, sc_pat(left.item, t)),
    }
}
pub open spec fn sc_bprop<'ast>(x0: Property<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 1int
{
    match x0 {
        Property::Shorthand(n) => t.push(RefEv::Decl(n)),
        Property::Literal { key, value } => sc_bexpr(value, sc_key(key.item, t)),
        Property::Method { .. } => sc_prop(x0, t),
        Property::Spread { argument } => sc_bexpr(argument, t),
    }
}
pub open spec fn sc_bexpr<'ast>(x0: ExpressionNode<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 1int
{
    match x0.item {
        Expression::Identifier(n) => t.push(RefEv::Decl(n)),
        Expression::Object(o) => sc_bprops(o.body, t),
        Expression::Array(a) => sc_bexprs(a.body, t),
        Expression::Spread(s) => sc_bexpr(s.argument, t),
        Expression::Binary(BinaryExpression { operator: OperatorKind::Assign, left, right }) => sc_expr(right, sc_bexpr(left, t)),
        _ => sc_expr(x0, t),
    }
}
pub open spec fn sc_prop<'ast>(x0: Property<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        Property::Shorthand(n) => t.push(RefEv::Use(n)),
        Property::Literal { key, value } => sc_expr(value, sc_key(key.item, t)),
        Property::Method { key, value } => sc_func(value.item, sc_key(key.item, t)),
        Property::Spread { argument } => sc_expr(argument, t),
    }
}
pub open spec fn sc_key<'ast>(x0: PropertyKey<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        PropertyKey::Computed(k) => sc_expr(k, t),
        _ => t,
    }
}
pub open spec fn sc_member<'ast>(x0: ClassMember<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        ClassMember::Error => t,
        ClassMember::Method { is_static, key, kind, value } => sc_func(value.item, sc_key(key.item, t)),
        ClassMember::Literal { is_static, key, value } => sc_expr(value, sc_key(key.item, t)),
    }
}
pub open spec fn sc_func<'ast, N>(x0: Function<'ast, N>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    sc_body(x0.body.item.body, sc_pats(x0.params, t.push(RefEv::Enter(ScopeKind::Function)))).push(RefEv::Leave)
}
pub open spec fn sc_class<'ast, N>(x0: Class<'ast, N>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    sc_members(x0.body.item.body, sc_oexpr(x0.extends, t))
}
pub open spec fn sc_arrow<'ast>(x0: ArrowBody<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        ArrowBody::Expression(k) => sc_expr(k, t),
        ArrowBody::Block(b) => sc_body(b.item.body, t),
    }
}
pub open spec fn sc_block<'ast>(x0: Block<'ast, Statement<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    sc_body(x0.body, t.push(RefEv::Enter(ScopeKind::Block))).push(RefEv::Leave)
}
pub open spec fn sc_body<'ast>(x0: StatementList<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 1int
{
    sc_stmts(x0, t)
}
pub open spec fn sc_declr<'ast>(x0: Declarator<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    sc_oexpr(x0.init, sc_pat(x0.id.item, t))
}
pub open spec fn sc_forinit<'ast>(x0: ForInit<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        ForInit::Declaration(d) => sc_decls(d.declarators, t),
        ForInit::Expression(k) => sc_expr(k, t),
    }
}
pub open spec fn sc_catch<'ast>(x0: CatchClause<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    sc_body(x0.body.item.body, sc_pat(x0.param.item, t.push(RefEv::Enter(ScopeKind::Block)))).push(RefEv::Leave)
}
pub open spec fn sc_case<'ast>(x0: SwitchCase<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    sc_body(x0.consequent, sc_oexpr(x0.test, t))
}
pub open spec fn sc_import<'ast>(x0: ForImportSpecifier<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        ForImportSpecifier::ImportSpecifier(s) => t.push(RefEv::Decl(s.local.item)),
        ForImportSpecifier::ImportDefaultSpecifier(s) => t.push(RefEv::Decl(s.local.item)),
        ForImportSpecifier::ImportNamespaceSpecifier(s) => t.push(RefEv::Decl(s.local.item)),
    }
}
pub open spec fn sc_oexpr<'ast>(x0: Option<ExpressionNode<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        None => t,
        Some(y) => sc_expr(y, t),
    }
}
pub open spec fn sc_ostmt<'ast>(x0: Option<StatementNode<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        None => t,
        Some(y) => sc_stmt(y, t),
    }
}
pub open spec fn sc_oforinit<'ast>(x0: Option<Node<'ast, ForInit<'ast>>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        None => t,
        Some(y) => sc_forinit(y.item, t),
    }
}
pub open spec fn sc_ocatch<'ast>(x0: Option<Node<'ast, CatchClause<'ast>>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        None => t,
        Some(y) => sc_catch(y.item, t),
    }
}
pub open spec fn sc_oblock<'ast>(x0: Option<BlockNode<'ast, Statement<'ast>>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        None => t,
        Some(y) => sc_block(y.item, t),
    }
}
pub open spec fn sc_exprs<'ast>(x0: NodeList<'ast, Expression<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => sc_exprs(*tl, sc_expr((*h), t)),
    }
}
pub open spec fn sc_stmts<'ast>(x0: NodeList<'ast, Statement<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => sc_stmts(*tl, sc_stmt((*h), t)),
    }
}
pub open spec fn sc_pats<'ast>(x0: NodeList<'ast, Pattern<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => sc_pats(*tl, sc_pat((*h).item, t)),
    }
}
pub open spec fn sc_bprops<'ast>(x0: NodeList<'ast, Property<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 1int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => sc_bprops(*tl, sc_bprop((*h).item, t)),
    }
}
pub open spec fn sc_bexprs<'ast>(x0: NodeList<'ast, Expression<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 1int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => sc_bexprs(*tl, sc_bexpr((*h), t)),
    }
}
pub open spec fn sc_props<'ast>(x0: NodeList<'ast, Property<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => sc_props(*tl, sc_prop((*h).item, t)),
    }
}
pub open spec fn sc_members<'ast>(x0: NodeList<'ast, ClassMember<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => sc_members(*tl, sc_member((*h).item, t)),
    }
}
pub open spec fn sc_decls<'ast>(x0: NodeList<'ast, Declarator<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => sc_decls(*tl, sc_declr((*h).item, t)),
    }
}
pub open spec fn sc_cases<'ast>(x0: NodeList<'ast, SwitchCase<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => sc_cases(*tl, sc_case((*h).item, t)),
    }
}
pub open spec fn sc_imports<'ast>(x0: NodeList<'ast, ForImportSpecifier<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => sc_imports(*tl, sc_import((*h).item, t)),
    }
}
pub open spec fn nodes_expr<'ast>(x0: ExpressionNode<'ast>, t: Seq<NodeEv<'ast>>) -> Seq<NodeEv<'ast>>
    decreases x0, 0int
{
    match x0.item {
        Expression::Void => t,
        Expression::This(_) => t.push(NodeEv::EThis(x0)),
        Expression::Identifier(x) => t.push(NodeEv::EIdentifier(x, x0)),
        Expression::Literal(x) => t.push(NodeEv::ELiteral(x, x0)),
        Expression::Sequence(x) => nodes_exprs(x.body, t.push(NodeEv::ESequence(x, x0))),
        Expression::Array(x) => nodes_exprs(x.body, t.push(NodeEv::EArray(x, x0))),
        Expression::Member(x) => nodes_expr(x.object, t.push(NodeEv::EMember(x, x0))),
        Expression::ComputedMember(x) => nodes_expr(x.property, nodes_expr(x.object, t.push(NodeEv::EComputedMember(x, x0)))),
        Expression::MetaProperty(x) => t.push(NodeEv::EMetaProperty(x, x0)),
        Expression::Call(x) => nodes_exprs(x.arguments, nodes_expr(x.callee, t.push(NodeEv::ECall(x, x0)))),
        Expression::Binary(x) => nodes_expr(x.right, nodes_expr(x.left, t.push(NodeEv::EBinary(x, x0)))),
        Expression::Prefix(x) => nodes_expr(x.operand, t.push(NodeEv::EPrefix(x, x0))),
        Expression::Postfix(x) => nodes_expr(x.operand, t.push(NodeEv::EPostfix(x, x0))),
        Expression::Conditional(x) => nodes_expr(x.alternate, nodes_expr(x.consequent, nodes_expr(x.test, t.push(NodeEv::EConditional(x, x0))))),
        Expression::Template(x) => nodes_exprs(x.expressions, t.push(NodeEv::ETemplate(x, x0))),
        Expression::TaggedTemplate(x) => nodes_exprs(x.quasi.item.expressions, nodes_expr(x.tag, t.push(NodeEv::ETaggedTemplate(x, x0)))),
        Expression::Spread(x) => nodes_expr(x.argument, t.push(NodeEv::ESpread(x, x0))),
        Expression::Arrow(x) => nodes_arrow(x.body, nodes_pats(x.params, t.push(NodeEv::EArrow(x, x0)))),
        Expression::Object(x) => nodes_props(x.body, t.push(NodeEv::EObject(x, x0))),
        Expression::Function(x) => nodes_func(x, t.push(NodeEv::EFunction(x, x0))),
        Expression::Class(x) => nodes_class(x, t.push(NodeEv::EClass(x, x0))),
    }
}
pub open spec fn nodes_stmt<'ast>(x0: StatementNode<'ast>, t: Seq<NodeEv<'ast>>) -> Seq<NodeEv<'ast>>
    decreases x0, 0int
{
    match x0.item {
        Statement::Empty => t,
        Statement::Debugger => t,
        Statement::Expression(x) => nodes_expr(x, t.push(NodeEv::SExpression(x, x0))),
        Statement::Declaration(x) => nodes_decls(x.declarators, t.push(NodeEv::SDeclaration(x, x0))),
        Statement::Return(x) => nodes_oexpr(x.value, t.push(NodeEv::SReturn(x, x0))),
        Statement::Break(x) => t.push(NodeEv::SBreak(x, x0)),
        Statement::Continue(x) => t.push(NodeEv::SContinue(x, x0)),
        Statement::Throw(x) => nodes_expr(x.value, t.push(NodeEv::SThrow(x, x0))),
        Statement::If(x) => nodes_ostmt(x.alternate, nodes_stmt(x.consequent, nodes_expr(x.test, t.push(NodeEv::SIf(x, x0))))),
        Statement::While(x) => nodes_stmt(x.body, nodes_expr(x.test, t.push(NodeEv::SWhile(x, x0)))),
        Statement::Do(x) => nodes_expr(x.test, nodes_stmt(x.body, t.push(NodeEv::SDo(x, x0)))),
        Statement::For(x) => nodes_stmt(x.body, nodes_oexpr(x.update, nodes_oexpr(x.test, nodes_oforinit(x.init, t.push(NodeEv::SFor(x, x0)))))),
        Statement::ForIn(x) => nodes_stmt(x.body, nodes_expr(x.right, nodes_forinit(x.left.item, t.push(NodeEv::SForIn(x, x0))))),
        Statement::ForOf(x) => nodes_stmt(x.body, nodes_expr(x.right, nodes_forinit(x.left.item, t.push(NodeEv::SForOf(x, x0))))),
        Statement::Try(x) => nodes_oblock(x.finalizer, nodes_ocatch(x.handler, nodes_block(x.block.item, t.push(NodeEv::STry(x, x0))))),
        Statement::Block(x) => nodes_block(x, t.push(NodeEv::SBlock(x, x0))),
        Statement::Labeled(x) => nodes_stmt(x.body, t.push(NodeEv::SLabeled(x, x0))),
        Statement::Switch(x) => nodes_cases(x.cases.item.body, nodes_expr(x.discriminant, t.push(NodeEv::SSwitch(x, x0)))),
        Statement::Function(x) => nodes_func(x, t.push(NodeEv::SFunction(x, x0))),
        Statement::Class(x) => nodes_class(x, t.push(NodeEv::SClass(x, x0))),
        Statement::Import(x) => nodes_imports(x.specifiers, t.push(NodeEv::SImport(x, x0))),
    }
}
pub open spec fn nodes_pat<'ast>(x0: Pattern<'ast>, t: Seq<NodeEv<'ast>>) -> Seq<NodeEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        Pattern::Void => t,
        Pattern::Identifier(n) => t,
        Pattern::ObjectPattern { properties } => nodes_bprops(properties, t),
        Pattern::ArrayPattern { elements } => nodes_pats(elements, t),
        Pattern::RestElement { argument } => t,
        Pattern::AssignmentPattern { left, right } => nodes_expr(right, nodes_pat(left.item, t)),
    }
}
pub open spec fn nodes_bprop<'ast>(x0: Property<'ast>, t: Seq<NodeEv<'ast>>) -> Seq<NodeEv<'ast>>
    decreases x0, 1int
{
    match x0 {
        Property::Shorthand(n) => t,
        Property::Literal { key, value } => nodes_bexpr(value, nodes_key(key.item, t)),
        Property::Method { .. } => nodes_prop(x0, t),
        Property::Spread { argument } => nodes_bexpr(argument, t),
    }
}
pub open spec fn nodes_bexpr<'ast>(x0: ExpressionNode<'ast>, t: Seq<NodeEv<'ast>>) -> Seq<NodeEv<'ast>>
    decreases x0, 1int
{
    match x0.item {
        Expression::Identifier(n) => t,
        Expression::Object(o) => nodes_bprops(o.body, t),
        Expression::Array(a) => nodes_bexprs(a.body, t),
        Expression::Spread(s) => nodes_bexpr(s.argument, t),
        Expression::Binary(BinaryExpression { operator: OperatorKind::Assign, left, right }) => nodes_expr(right, nodes_bexpr(left, t)),
        _ => nodes_expr(x0, t),
    }
}
pub open spec fn nodes_prop<'ast>(x0: Property<'ast>, t: Seq<NodeEv<'ast>>) -> Seq<NodeEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        Property::Shorthand(n) => t,
        Property::Literal { key, value } => nodes_expr(value, nodes_key(key.item, t)),
        Property::Method { key, value } => nodes_func(value.item, nodes_key(key.item, t)),
        Property::Spread { argument } => nodes_expr(argument, t),
    }
}
pub open spec fn nodes_key<'ast>(x0: PropertyKey<'ast>, t: Seq<NodeEv<'ast>>) -> Seq<NodeEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        PropertyKey::Computed(k) => nodes_expr(k, t),
        _ => t,
    }
}
pub open spec fn nodes_member<'ast>(x0: ClassMember<'ast>, t: Seq<NodeEv<'ast>>) -> Seq<NodeEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        ClassMember::Error => t,
        ClassMember::Method { is_static, key, kind, value } => nodes_func(value.item, nodes_key(key.item, t)),
        ClassMember::Literal { is_static, key, value } => nodes_expr(value, nodes_key(key.item, t)),
    }
}
pub open spec fn nodes_func<'ast, N>(x0: Function<'ast, N>, t: Seq<NodeEv<'ast>>) -> Seq<NodeEv<'ast>>
    decreases x0, 0int
{
    nodes_body(x0.body.item.body, nodes_pats(x0.params, t))
}
pub open spec fn nodes_class<'ast, N>(x0: Class<'ast, N>, t: Seq<NodeEv<'ast>>) -> Seq<NodeEv<'ast>>
    decreases x0, 0int
{
    nodes_members(x0.body.item.body, nodes_oexpr(x0.extends, t))
}
pub open spec fn nodes_arrow<'ast>(x0: ArrowBody<'ast>, t: Seq<NodeEv<'ast>>) -> Seq<NodeEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        ArrowBody::Expression(k) => nodes_expr(k, t),
        ArrowBody::Block(b) => nodes_body(b.item.body, t),
    }
}
pub open spec fn nodes_block<'ast>(x0: Block<'ast, Statement<'ast>>, t: Seq<NodeEv<'ast>>) -> Seq<NodeEv<'ast>>
    decreases x0, 0int
{
    nodes_body(x0.body, t)
}
pub open spec fn nodes_body<'ast>(x0: StatementList<'ast>, t: Seq<NodeEv<'ast>>) -> Seq<NodeEv<'ast>>
    decreases x0, 1int
{
    nodes_stmts(x0, t.push(NodeEv::List(x0)))
}
pub open spec fn nodes_declr<'ast>(x0: Declarator<'ast>, t: Seq<NodeEv<'ast>>) -> Seq<NodeEv<'ast>>
    decreases x0, 0int
{
    nodes_oexpr(x0.init, nodes_pat(x0.id.item, t))
}
pub open spec fn nodes_forinit<'ast>(x0: ForInit<'ast>, t: Seq<NodeEv<'ast>>) -> Seq<NodeEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        ForInit::Declaration(d) => nodes_decls(d.declarators, t),
        ForInit::Expression(k) => nodes_expr(k, t),
    }
}
pub open spec fn nodes_catch<'ast>(x0: CatchClause<'ast>, t: Seq<NodeEv<'ast>>) -> Seq<NodeEv<'ast>>
    decreases x0, 0int
{
    nodes_body(x0.body.item.body, nodes_pat(x0.param.item, t))
}
pub open spec fn nodes_case<'ast>(x0: SwitchCase<'ast>, t: Seq<NodeEv<'ast>>) -> Seq<NodeEv<'ast>>
    decreases x0, 0int
{
    nodes_body(x0.consequent, nodes_oexpr(x0.test, t))
}
pub open spec fn nodes_import<'ast>(x0: ForImportSpecifier<'ast>, t: Seq<NodeEv<'ast>>) -> Seq<NodeEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        ForImportSpecifier::ImportSpecifier(s) => t,
        ForImportSpecifier::ImportDefaultSpecifier(s) => t,
        ForImportSpecifier::ImportNamespaceSpecifier(s) => t,
    }
}
pub open spec fn nodes_oexpr<'ast>(x0: Option<ExpressionNode<'ast>>, t: Seq<NodeEv<'ast>>) -> Seq<NodeEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        None => t,
        Some(y) => nodes_expr(y, t),
    }
}
pub open spec fn nodes_ostmt<'ast>(x0: Option<StatementNode<'ast>>, t: Seq<NodeEv<'ast>>) -> Seq<NodeEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        None => t,
        Some(y) => nodes_stmt(y, t),
    }
}
pub open spec fn nodes_oforinit<'ast>(x0: Option<Node<'ast, ForInit<'ast>>>, t: Seq<NodeEv<'ast>>) -> Seq<NodeEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        None => t,
        Some(y) => nodes_forinit(y.item, t),
    }
}
pub open spec fn nodes_ocatch<'ast>(x0: Option<Node<'ast, CatchClause<'ast>>>, t: Seq<NodeEv<'ast>>) -> Seq<NodeEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        None => t,
        Some(y) => nodes_catch(y.item, t),
    }
}
pub open spec fn nodes_oblock<'ast>(x0: Option<BlockNode<'ast, Statement<'ast>>>, t: Seq<NodeEv<'ast>>) -> Seq<NodeEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        None => t,
        Some(y) => nodes_block(y.item, t),
    }
}
pub open spec fn nodes_exprs<'ast>(x0: NodeList<'ast, Expression<'ast>>, t: Seq<NodeEv<'ast>>) -> Seq<NodeEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => nodes_exprs(*tl, nodes_expr((*h), t)),
    }
}
pub open spec fn nodes_stmts<'ast>(x0: NodeList<'ast, Statement<'ast>>, t: Seq<NodeEv<'ast>>) -> Seq<NodeEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => nodes_stmts(*tl, nodes_stmt((*h), t)),
    }
}
pub open spec fn nodes_pats<'ast>(x0: NodeList<'ast, Pattern<'ast>>, t: Seq<NodeEv<'ast>>) -> Seq<NodeEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => nodes_pats(*tl, nodes_pat((*h).item, t)),
    }
}
pub open spec fn nodes_bprops<'ast>(x0: NodeList<'ast, Property<'ast>>, t: Seq<NodeEv<'ast>>) -> Seq<NodeEv<'ast>>
    decreases x0, 1int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => nodes_bprops(*tl, nodes_bprop((*h).item, t)),
    }
}
pub open spec fn nodes_bexprs<'ast>(x0: NodeList<'ast, Expression<'ast>>, t: Seq<NodeEv<'ast>>) -> Seq<NodeEv<'ast>>
    decreases x0, 1int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => nodes_bexprs(*tl, nodes_bexpr((*h), t)),
    }
}
pub open spec fn nodes_props<'ast>(x0: NodeList<'ast, Property<'ast>>, t: Seq<NodeEv<'ast>>) -> Seq<NodeEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => nodes_props(*tl, nodes_prop((*h).item, t)),
    }
}
pub open spec fn nodes_members<'ast>(x0: NodeList<'ast, ClassMember<'ast>>, t: Seq<NodeEv<'ast>>) -> Seq<NodeEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => nodes_members(*tl, nodes_member((*h).item, t)),
    }
}
pub open spec fn nodes_decls<'ast>(x0: NodeList<'ast, Declarator<'ast>>, t: Seq<NodeEv<'ast>>) -> Seq<NodeEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => nodes_decls(*tl, nodes_declr((*h).item, t)),
    }
}
pub open spec fn nodes_cases<'ast>(x0: NodeList<'ast, SwitchCase<'ast>>, t: Seq<NodeEv<'ast>>) -> Seq<NodeEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => nodes_cases(*tl, nodes_case((*h).item, t)),
    }
}
pub open spec fn nodes_imports<'ast>(x0: NodeList<'ast, ForImportSpecifier<'ast>>, t: Seq<NodeEv<'ast>>) -> Seq<NodeEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => nodes_imports(*tl, nodes_import((*h).item, t)),
    }
}
pub open spec fn ent_expr<'ast>(x0: ExpressionNode<'ast>, P: Seq<ParentNode<'ast>>, e: Entry<'ast>) -> bool
    decreases x0, 0int
{
    match x0.item {
        Expression::Void => false,
        Expression::This(_) => e == Entry { node: ParentNode::Expression(&x0), parents: P },
        Expression::Identifier(x) => e == Entry { node: ParentNode::Expression(&x0), parents: P },
        Expression::Literal(x) => e == Entry { node: ParentNode::Expression(&x0), parents: P },
        Expression::Sequence(x) => e == Entry { node: ParentNode::Expression(&x0), parents: P } || ent_exprs(x.body, P.push(ParentNode::Expression(&x0)), e),
        Expression::Array(x) => e == Entry { node: ParentNode::Expression(&x0), parents: P } || ent_exprs(x.body, P.push(ParentNode::Expression(&x0)), e),
        Expression::Member(x) => e == Entry { node: ParentNode::Expression(&x0), parents: P } || ent_expr(x.object, P.push(ParentNode::Expression(&x0)), e),
        Expression::ComputedMember(x) => e == Entry { node: ParentNode::Expression(&x0), parents: P } || ent_expr(x.object, P.push(ParentNode::Expression(&x0)), e) || ent_expr(x.property, P.push(ParentNode::Expression(&x0)), e),
        Expression::MetaProperty(x) => e == Entry { node: ParentNode::Expression(&x0), parents: P },
        Expression::Call(x) => e == Entry { node: ParentNode::Expression(&x0), parents: P } || ent_expr(x.callee, P.push(ParentNode::Expression(&x0)), e) || ent_exprs(x.arguments, P.push(ParentNode::Expression(&x0)), e),
        Expression::Binary(x) => e == Entry { node: ParentNode::Expression(&x0), parents: P } || ent_expr(x.left, P.push(ParentNode::Expression(&x0)), e) || ent_expr(x.right, P.push(ParentNode::Expression(&x0)), e),
        Expression::Prefix(x) => e == Entry { node: ParentNode::Expression(&x0), parents: P } || ent_expr(x.operand, P.push(ParentNode::Expression(&x0)), e),
        Expression::Postfix(x) => e == Entry { node: ParentNode::Expression(&x0), parents: P } || ent_expr(x.operand, P.push(ParentNode::Expression(&x0)), e),
        Expression::Conditional(x) => e == Entry { node: ParentNode::Expression(&x0), parents: P } || ent_expr(x.test, P.push(ParentNode::Expression(&x0)), e) || ent_expr(x.consequent, P.push(ParentNode::Expression(&x0)), e) || ent_expr(x.alternate, P.push(ParentNode::Expression(&x0)), e),
        Expression::Template(x) => e == Entry { node: ParentNode::Expression(&x0), parents: P } || ent_exprs(x.expressions, P.push(ParentNode::Expression(&x0)), e),
        Expression::TaggedTemplate(x) => e == Entry { node: ParentNode::Expression(&x0), parents: P } || ent_expr(x.tag, P.push(ParentNode::Expression(&x0)), e) || ent_exprs(x.quasi.item.expressions, P.push(ParentNode::Expression(&x0)), e),
        Expression::Spread(x) => e == Entry { node: ParentNode::Expression(&x0), parents: P } || ent_expr(x.argument, P.push(ParentNode::Expression(&x0)), e),
        Expression::Arrow(x) => e == Entry { node: ParentNode::Expression(&x0), parents: P } || ent_pats(x.params, P.push(ParentNode::Expression(&x0)), e) || ent_arrow(x.body, P.push(ParentNode::Expression(&x0)), e),
        Expression::Object(x) => e == Entry { node: ParentNode::Expression(&x0), parents: P } || ent_props(x.body, P.push(ParentNode::Expression(&x0)), e),
        Expression::Function(x) => e == Entry { node: ParentNode::Expression(&x0), parents: P } || ent_func(x, P.push(ParentNode::Expression(&x0)), e),
        Expression::Class(x) => e == Entry { node: ParentNode::Expression(&x0), parents: P } || ent_class(x, P.push(ParentNode::Expression(&x0)), e),
    }
}
pub open spec fn ent_stmt<'ast>(x0: StatementNode<'ast>, P: Seq<ParentNode<'ast>>, e: Entry<'ast>) -> bool
    decreases x0, 0int
{
    match x0.item {
        Statement::Empty => false,
        Statement::Debugger => false,
        Statement::Expression(x) => e == Entry { node: ParentNode::Statement(&x0), parents: P } || ent_expr(x, P.push(ParentNode::Statement(&x0)), e),
        Statement::Declaration(x) => e == Entry { node: ParentNode::Statement(&x0), parents: P } || ent_decls(x.declarators, P.push(ParentNode::Statement(&x0)), e),
        Statement::Return(x) => e == Entry { node: ParentNode::Statement(&x0), parents: P } || ent_oexpr(x.value, P.push(ParentNode::Statement(&x0)), e),
        Statement::Break(x) => e == Entry { node: ParentNode::Statement(&x0), parents: P },
        Statement::Continue(x) => e == Entry { node: ParentNode::Statement(&x0), parents: P },
        Statement::Throw(x) => e == Entry { node: ParentNode::Statement(&x0), parents: P } || ent_expr(x.value, P.push(ParentNode::Statement(&x0)), e),
        Statement::If(x) => e == Entry { node: ParentNode::Statement(&x0), parents: P } || ent_expr(x.test, P.push(ParentNode::Statement(&x0)), e) || ent_stmt(x.consequent, P.push(ParentNode::Statement(&x0)), e) || ent_ostmt(x.alternate, P.push(ParentNode::Statement(&x0)), e),
        Statement::While(x) => e == Entry { node: ParentNode::Statement(&x0), parents: P } || ent_expr(x.test, P.push(ParentNode::Statement(&x0)), e) || ent_stmt(x.body, P.push(ParentNode::Statement(&x0)), e),
        Statement::Do(x) => e == Entry { node: ParentNode::Statement(&x0), parents: P } || ent_stmt(x.body, P.push(ParentNode::Statement(&x0)), e) || ent_expr(x.test, P.push(ParentNode::Statement(&x0)), e),
        Statement::For(x) => e == Entry { node: ParentNode::Statement(&x0), parents: P } || ent_oforinit(x.init, P.push(ParentNode::Statement(&x0)), e) || ent_oexpr(x.test, P.push(ParentNode::Statement(&x0)), e) || ent_oexpr(x.update, P.push(ParentNode::Statement(&x0)), e) || ent_stmt(x.body, P.push(ParentNode::Statement(&x0)), e),
        Statement::ForIn(x) => e == Entry { node: ParentNode::Statement(&x0), parents: P } || ent_forinit(x.left.item, P.push(ParentNode::Statement(&x0)), e) || ent_expr(x.right, P.push(ParentNode::Statement(&x0)), e) || ent_stmt(x.body, P.push(ParentNode::Statement(&x0)), e),
        Statement::ForOf(x) => e == Entry { node: ParentNode::Statement(&x0), parents: P } || ent_forinit(x.left.item, P.push(ParentNode::Statement(&x0)), e) || ent_expr(x.right, P.push(ParentNode::Statement(&x0)), e) || ent_stmt(x.body, P.push(ParentNode::Statement(&x0)), e),
        Statement::Try(x) => e == Entry { node: ParentNode::Statement(&x0), parents: P } || ent_block(x.block.item, P.push(ParentNode::Statement(&x0)), e) || ent_ocatch(x.handler, P.push(ParentNode::Statement(&x0)), e) || ent_oblock(x.finalizer, P.push(ParentNode::Statement(&x0)), e),
        Statement::Block(x) => e == Entry { node: ParentNode::Statement(&x0), parents: P } || ent_block(x, P.push(ParentNode::Statement(&x0)), e),
        Statement::Labeled(x) => e == Entry { node: ParentNode::Statement(&x0), parents: P } || ent_stmt(x.body, P.push(ParentNode::Statement(&x0)), e),
        Statement::Switch(x) => e == Entry { node: ParentNode::Statement(&x0), parents: P } || ent_expr(x.discriminant, P.push(ParentNode::Statement(&x0)), e) || ent_cases(x.cases.item.body, P.push(ParentNode::Statement(&x0)), e),
        Statement::Function(x) => e == Entry { node: ParentNode::Statement(&x0), parents: P } || ent_func(x, P.push(ParentNode::Statement(&x0)), e),
        Statement::Class(x) => e == Entry { node: ParentNode::Statement(&x0), parents: P } || ent_class(x, P.push(ParentNode::Statement(&x0)), e),
        Statement::Import(x) => e == Entry { node: ParentNode::Statement(&x0), parents: P } || ent_imports(x.specifiers, P.push(ParentNode::Statement(&x0)), e),
    }
}
pub open spec fn ent_pat<'ast>(x0: Pattern<'ast>, P: Seq<ParentNode<'ast>>, e: Entry<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        Pattern::Void => false,
        Pattern::Identifier(n) => false,
        Pattern::ObjectPattern { properties } => ent_bprops(properties, P, e),
        Pattern::ArrayPattern { elements } => ent_pats(elements, P, e),
        Pattern::RestElement { argument } => false,
        Pattern::AssignmentPattern { left, right } => ent_pat(left.item, P, e) || ent_expr(right, P, e),
    }
}
pub open spec fn ent_bprop<'ast>(x0: Property<'ast>, P: Seq<ParentNode<'ast>>, e: Entry<'ast>) -> bool
    decreases x0, 1int
{
    match x0 {
        Property::Shorthand(n) => false,
        Property::Literal { key, value } => ent_key(key.item, P, e) || ent_bexpr(value, P, e),
        Property::Method { .. } => ent_prop(x0, P, e),
        Property::Spread { argument } => ent_bexpr(argument, P, e),
    }
}
pub open spec fn ent_bexpr<'ast>(x0: ExpressionNode<'ast>, P: Seq<ParentNode<'ast>>, e: Entry<'ast>) -> bool
    decreases x0, 1int
{
    match x0.item {
        Expression::Identifier(n) => false,
        Expression::Object(o) => ent_bprops(o.body, P, e),
        Expression::Array(a) => ent_bexprs(a.body, P, e),
        Expression::Spread(s) => ent_bexpr(s.argument, P, e),
        Expression::Binary(BinaryExpression { operator: OperatorKind::Assign, left, right }) => ent_bexpr(left, P, e) || ent_expr(right, P, e),
        _ => ent_expr(x0, P, e),
    }
}
pub open spec fn ent_prop<'ast>(x0: Property<'ast>, P: Seq<ParentNode<'ast>>, e: Entry<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        Property::Shorthand(n) => false,
        Property::Literal { key, value } => ent_key(key.item, P, e) || ent_expr(value, P, e),
        Property::Method { key, value } => ent_key(key.item, P, e) || ent_func(value.item, P, e),
        Property::Spread { argument } => ent_expr(argument, P, e),
    }
}
pub open spec fn ent_key<'ast>(x0: PropertyKey<'ast>, P: Seq<ParentNode<'ast>>, e: Entry<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        PropertyKey::Computed(k) => ent_expr(k, P, e),
        _ => false,
    }
}
pub open spec fn ent_member<'ast>(x0: ClassMember<'ast>, P: Seq<ParentNode<'ast>>, e: Entry<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        ClassMember::Error => false,
        ClassMember::Method { is_static, key, kind, value } => ent_key(key.item, P, e) || ent_func(value.item, P, e),
        ClassMember::Literal { is_static, key, value } => ent_key(key.item, P, e) || ent_expr(value, P, e),
    }
}
pub open spec fn ent_func<'ast, N>(x0: Function<'ast, N>, P: Seq<ParentNode<'ast>>, e: Entry<'ast>) -> bool
    decreases x0, 0int
{
    ent_pats(x0.params, P, e) || ent_body(x0.body.item.body, P, e)
}
pub open spec fn ent_class<'ast, N>(x0: Class<'ast, N>, P: Seq<ParentNode<'ast>>, e: Entry<'ast>) -> bool
    decreases x0, 0int
{
    ent_oexpr(x0.extends, P, e) || ent_members(x0.body.item.body, P, e)
}
pub open spec fn ent_arrow<'ast>(x0: ArrowBody<'ast>, P: Seq<ParentNode<'ast>>, e: Entry<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        ArrowBody::Expression(k) => ent_expr(k, P, e),
        ArrowBody::Block(b) => ent_body(b.item.body, P, e),
    }
}
pub open spec fn ent_block<'ast>(x0: Block<'ast, Statement<'ast>>, P: Seq<ParentNode<'ast>>, e: Entry<'ast>) -> bool
    decreases x0, 0int
{
    ent_body(x0.body, P, e)
}
pub open spec fn ent_body<'ast>(x0: StatementList<'ast>, P: Seq<ParentNode<'ast>>, e: Entry<'ast>) -> bool
    decreases x0, 1int
{
    ent_stmts(x0, P, e)
}
pub open spec fn ent_declr<'ast>(x0: Declarator<'ast>, P: Seq<ParentNode<'ast>>, e: Entry<'ast>) -> bool
    decreases x0, 0int
{
    ent_pat(x0.id.item, P, e) || ent_oexpr(x0.init, P, e)
}
pub open spec fn ent_forinit<'ast>(x0: ForInit<'ast>, P: Seq<ParentNode<'ast>>, e: Entry<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        ForInit::Declaration(d) => ent_decls(d.declarators, P, e),
        ForInit::Expression(k) => ent_expr(k, P, e),
    }
}
pub open spec fn ent_catch<'ast>(x0: CatchClause<'ast>, P: Seq<ParentNode<'ast>>, e: Entry<'ast>) -> bool
    decreases x0, 0int
{
    ent_pat(x0.param.item, P, e) || ent_body(x0.body.item.body, P, e)
}
pub open spec fn ent_case<'ast>(x0: SwitchCase<'ast>, P: Seq<ParentNode<'ast>>, e: Entry<'ast>) -> bool
    decreases x0, 0int
{
    ent_oexpr(x0.test, P, e) || ent_body(x0.consequent, P, e)
}
pub open spec fn ent_import<'ast>(x0: ForImportSpecifier<'ast>, P: Seq<ParentNode<'ast>>, e: Entry<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        ForImportSpecifier::ImportSpecifier(s) => false,
        ForImportSpecifier::ImportDefaultSpecifier(s) => false,
        ForImportSpecifier::ImportNamespaceSpecifier(s) => false,
    }
}
pub open spec fn ent_oexpr<'ast>(x0: Option<ExpressionNode<'ast>>, P: Seq<ParentNode<'ast>>, e: Entry<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        None => false,
        Some(y) => ent_expr(y, P, e),
    }
}
pub open spec fn ent_ostmt<'ast>(x0: Option<StatementNode<'ast>>, P: Seq<ParentNode<'ast>>, e: Entry<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        None => false,
        Some(y) => ent_stmt(y, P, e),
    }
}
pub open spec fn ent_oforinit<'ast>(x0: Option<Node<'ast, ForInit<'ast>>>, P: Seq<ParentNode<'ast>>, e: Entry<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        None => false,
        Some(y) => ent_forinit(y.item, P, e),
    }
}
pub open spec fn ent_ocatch<'ast>(x0: Option<Node<'ast, CatchClause<'ast>>>, P: Seq<ParentNode<'ast>>, e: Entry<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        None => false,
        Some(y) => ent_catch(y.item, P, e),
    }
}
pub open spec fn ent_oblock<'ast>(x0: Option<BlockNode<'ast, Statement<'ast>>>, P: Seq<ParentNode<'ast>>, e: Entry<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        None => false,
        Some(y) => ent_block(y.item, P, e),
    }
}
pub open spec fn ent_exprs<'ast>(x0: NodeList<'ast, Expression<'ast>>, P: Seq<ParentNode<'ast>>, e: Entry<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        List::Nil => false,
        List::Cons(h, tl) => ent_expr((*h), P, e) || ent_exprs(*tl, P, e),
    }
}
pub open spec fn ent_stmts<'ast>(x0: NodeList<'ast, Statement<'ast>>, P: Seq<ParentNode<'ast>>, e: Entry<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        List::Nil => false,
        List::Cons(h, tl) => ent_stmt((*h), P, e) || ent_stmts(*tl, P, e),
    }
}
pub open spec fn ent_pats<'ast>(x0: NodeList<'ast, Pattern<'ast>>, P: Seq<ParentNode<'ast>>, e: Entry<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        List::Nil => false,
        List::Cons(h, tl) => ent_pat((*h).item, P, e) || ent_pats(*tl, P, e),
    }
}
pub open spec fn ent_bprops<'ast>(x0: NodeList<'ast, Property<'ast>>, P: Seq<ParentNode<'ast>>, e: Entry<'ast>) -> bool
    decreases x0, 1int
{
    match x0 {
        List::Nil => false,
        List::Cons(h, tl) => ent_bprop((*h).item, P, e) || ent_bprops(*tl, P, e),
    }
}
pub open spec fn ent_bexprs<'ast>(x0: NodeList<'ast, Expression<'ast>>, P: Seq<ParentNode<'ast>>, e: Entry<'ast>) -> bool
    decreases x0, 1int
{
    match x0 {
        List::Nil => false,
        List::Cons(h, tl) => ent_bexpr((*h), P, e) || ent_bexprs(*tl, P, e),
    }
}
pub open spec fn ent_props<'ast>(x0: NodeList<'ast, Property<'ast>>, P: Seq<ParentNode<'ast>>, e: Entry<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        List::Nil => false,
        List::Cons(h, tl) => ent_prop((*h).item, P, e) || ent_props(*tl, P, e),
    }
}
pub open spec fn ent_members<'ast>(x0: NodeList<'ast, ClassMember<'ast>>, P: Seq<ParentNode<'ast>>, e: Entry<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        List::Nil => false,
        List::Cons(h, tl) => ent_member((*h).item, P, e) || ent_members(*tl, P, e),
    }
}
pub open spec fn ent_decls<'ast>(x0: NodeList<'ast, Declarator<'ast>>, P: Seq<ParentNode<'ast>>, e: Entry<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        List::Nil => false,
        List::Cons(h, tl) => ent_declr((*h).item, P, e) || ent_decls(*tl, P, e),
    }
}
pub open spec fn ent_cases<'ast>(x0: NodeList<'ast, SwitchCase<'ast>>, P: Seq<ParentNode<'ast>>, e: Entry<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        List::Nil => false,
        List::Cons(h, tl) => ent_case((*h).item, P, e) || ent_cases(*tl, P, e),
    }
}
pub open spec fn ent_imports<'ast>(x0: NodeList<'ast, ForImportSpecifier<'ast>>, P: Seq<ParentNode<'ast>>, e: Entry<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        List::Nil => false,
        List::Cons(h, tl) => ent_import((*h).item, P, e) || ent_imports(*tl, P, e),
    }
}
