// written by gen_visitor.py
pub enum RefEv<'ast> { Use(Identifier<'ast>), Decl(Identifier<'ast>), Enter(ScopeKind), Leave, This }
pub struct Entry<'ast> { pub node: ParentNode<'ast>, pub parents: Seq<ParentNode<'ast>> }
pub enum NodeEv<'ast> { EThis(ExpressionNode<'ast>), EIdentifier(Identifier<'ast>, ExpressionNode<'ast>), ELiteral(Literal<'ast>, ExpressionNode<'ast>), ESequence(SequenceExpression<'ast>, ExpressionNode<'ast>), EArray(ArrayExpression<'ast>, ExpressionNode<'ast>), EMember(MemberExpression<'ast>, ExpressionNode<'ast>), EComputedMember(ComputedMemberExpression<'ast>, ExpressionNode<'ast>), EMetaProperty(MetaPropertyExpression<'ast>, ExpressionNode<'ast>), ECall(CallExpression<'ast>, ExpressionNode<'ast>), EBinary(BinaryExpression<'ast>, ExpressionNode<'ast>), EPrefix(PrefixExpression<'ast>, ExpressionNode<'ast>), EPostfix(PostfixExpression<'ast>, ExpressionNode<'ast>), EConditional(ConditionalExpression<'ast>, ExpressionNode<'ast>), ETemplate(TemplateLiteral<'ast>, ExpressionNode<'ast>), ETaggedTemplate(TaggedTemplateExpression<'ast>, ExpressionNode<'ast>), ESpread(SpreadExpression<'ast>, ExpressionNode<'ast>), EArrow(ArrowExpression<'ast>, ExpressionNode<'ast>), EObject(ObjectExpression<'ast>, ExpressionNode<'ast>), EFunction(FunctionExpression<'ast>, ExpressionNode<'ast>), EClass(ClassExpression<'ast>, ExpressionNode<'ast>), SExpression(ExpressionNode<'ast>, StatementNode<'ast>), SDeclaration(DeclarationStatement<'ast>, StatementNode<'ast>), SReturn(ReturnStatement<'ast>, StatementNode<'ast>), SBreak(BreakStatement<'ast>, StatementNode<'ast>), SContinue(ContinueStatement<'ast>, StatementNode<'ast>), SThrow(ThrowStatement<'ast>, StatementNode<'ast>), SIf(IfStatement<'ast>, StatementNode<'ast>), SWhile(WhileStatement<'ast>, StatementNode<'ast>), SDo(DoStatement<'ast>, StatementNode<'ast>), SFor(ForStatement<'ast>, StatementNode<'ast>), SForIn(ForInStatement<'ast>, StatementNode<'ast>), SForOf(ForOfStatement<'ast>, StatementNode<'ast>), STry(TryStatement<'ast>, StatementNode<'ast>), SBlock(BlockStatement<'ast>, StatementNode<'ast>), SLabeled(LabeledStatement<'ast>, StatementNode<'ast>), SSwitch(SwitchStatement<'ast>, StatementNode<'ast>), SFunction(FunctionStatement<'ast>, StatementNode<'ast>), SClass(ClassStatement<'ast>, StatementNode<'ast>), SImport(ImportDeclaration<'ast>, StatementNode<'ast>), List(StatementList<'ast>) }
pub open spec fn sc_expr<'ast>(x0: ExpressionNode<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0.item {
        Expression::Void => t,
        Expression::This(_) => t.push(RefEv::This),
        Expression::Identifier(x) => t.push(RefEv::Use(x)),
        Expression::Literal(x) => t,
        Expression::Sequence(x) => sc_exprs(x.body, t),
        Expression::Array(x) => sc_exprs(x.body, t),
        Expression::Member(x) => sc_expr(x.object, t),
        Expression::ComputedMember(x) => sc_expr(x.property, sc_expr(x.object, t)),
        Expression::MetaProperty(x) => t,
        Expression::Call(x) => sc_exprs(x.arguments, sc_expr(x.callee, t)),
        Expression::Binary(x) => sc_expr(x.right, sc_expr(x.left, t)),
        Expression::Prefix(x) => sc_expr(x.operand, t),
        Expression::Postfix(x) => sc_expr(x.operand, t),
        Expression::Conditional(x) => sc_expr(x.alternate, sc_expr(x.consequent, sc_expr(x.test, t))),
        Expression::Template(x) => sc_exprs(x.expressions, t),
        Expression::TaggedTemplate(x) => sc_exprs(x.quasi.item.expressions, sc_expr(x.tag, t)),
        Expression::Spread(x) => sc_expr(x.argument, t),
        Expression::Arrow(x) => sc_arrow(x.body, sc_pats(x.params, t.push(RefEv::Enter(ScopeKind::Function)))).push(RefEv::Leave),
        Expression::Object(x) => sc_props(x.body, t),
        Expression::Function(x) => sc_func(x, t),
        Expression::Class(x) => sc_class(x, t),
    }
}
pub open spec fn sc_stmt<'ast>(x0: StatementNode<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0.item {
        Statement::Empty => t,
        Statement::Debugger => t,
        Statement::Expression(x) => sc_expr(x, t),
        Statement::Declaration(x) => sc_decls(x.declarators, t),
        Statement::Return(x) => sc_oexpr(x.value, t),
        Statement::Break(x) => t,
        Statement::Continue(x) => t,
        Statement::Throw(x) => sc_expr(x.value, t),
        Statement::If(x) => sc_ostmt(x.alternate, sc_stmt(x.consequent, sc_expr(x.test, t))),
        Statement::While(x) => sc_stmt(x.body, sc_expr(x.test, t)),
        Statement::Do(x) => sc_expr(x.test, sc_stmt(x.body, t)),
        Statement::For(x) => sc_stmt(x.body, sc_oexpr(x.update, sc_oexpr(x.test, sc_oforinit(x.init, t)))),
        Statement::ForIn(x) => sc_stmt(x.body, sc_expr(x.right, sc_forinit(x.left.item, t))),
        Statement::ForOf(x) => sc_stmt(x.body, sc_expr(x.right, sc_forinit(x.left.item, t))),
        Statement::Try(x) => sc_oblock(x.finalizer, sc_ocatch(x.handler, sc_block(x.block.item, t))),
        Statement::Block(x) => sc_block(x, t),
        Statement::Labeled(x) => sc_stmt(x.body, t),
        Statement::Switch(x) => sc_cases(x.cases.item.body, sc_expr(x.discriminant, t).push(RefEv::Enter(ScopeKind::Block))).push(RefEv::Leave),
        Statement::Function(x) => sc_func(x, t.push(RefEv::Decl(x.name.0.item))),
        Statement::Class(x) => sc_class(x, t.push(RefEv::Decl(x.name.0.item))),
        Statement::Import(x) => sc_imports(x.specifiers, t),
    }
}
pub open spec fn sc_pat<'ast>(x0: Pattern<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        Pattern::Void => t,
        Pattern::Identifier(n) => t.push(RefEv::Decl(n)),
        Pattern::ObjectPattern { properties } => sc_bprops(properties, t),
        Pattern::ArrayPattern { elements } => sc_pats(elements, t),
        Pattern::RestElement { argument } => t.push(RefEv::Decl(argument.item)),
        Pattern::AssignmentPattern { left, right } => sc_expr(right, sc_pat(left.item, t)),
    }
}
pub open spec fn sc_bprop<'ast>(x0: Property<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 1int
{
    match x0 {
        Property::Shorthand(n) => t.push(RefEv::Decl(n)),
        Property::Literal { key, value } => sc_bexpr(value, sc_key(key.item, t)),
        Property::Method { .. } => sc_prop(x0, t),
        Property::Spread { argument } => sc_bexpr(argument, t),
    }
}
pub open spec fn sc_bexpr<'ast>(x0: ExpressionNode<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 1int
{
    match x0.item {
        Expression::Identifier(n) => t.push(RefEv::Decl(n)),
        Expression::Object(o) => sc_bprops(o.body, t),
        Expression::Array(a) => sc_bexprs(a.body, t),
        Expression::Spread(s) => sc_bexpr(s.argument, t),
        Expression::Binary(BinaryExpression { operator: OperatorKind::Assign, left, right }) => sc_expr(right, sc_bexpr(left, t)),
        _ => sc_expr(x0, t),
    }
}
pub open spec fn sc_prop<'ast>(x0: Property<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        Property::Shorthand(n) => t.push(RefEv::Use(n)),
        Property::Literal { key, value } => sc_expr(value, sc_key(key.item, t)),
        Property::Method { key, value } => sc_func(value.item, sc_key(key.item, t)),
        Property::Spread { argument } => sc_expr(argument, t),
    }
}
pub open spec fn sc_key<'ast>(x0: PropertyKey<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        PropertyKey::Computed(k) => sc_expr(k, t),
        _ => t,
    }
}
pub open spec fn sc_member<'ast>(x0: ClassMember<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        ClassMember::Error => t,
        ClassMember::Method { is_static, key, kind, value } => sc_func(value.item, sc_key(key.item, t)),
        ClassMember::Literal { is_static, key, value } => sc_expr(value, sc_key(key.item, t)),
    }
}
pub open spec fn sc_func<'ast, N>(x0: Function<'ast, N>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    sc_body(x0.body.item.body, sc_pats(x0.params, t.push(RefEv::Enter(ScopeKind::Function)))).push(RefEv::Leave)
}
pub open spec fn sc_class<'ast, N>(x0: Class<'ast, N>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    sc_members(x0.body.item.body, sc_oexpr(x0.extends, t))
}
pub open spec fn sc_arrow<'ast>(x0: ArrowBody<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        ArrowBody::Expression(k) => sc_expr(k, t),
        ArrowBody::Block(b) => sc_body(b.item.body, t),
    }
}
pub open spec fn sc_block<'ast>(x0: Block<'ast, Statement<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    sc_body(x0.body, t.push(RefEv::Enter(ScopeKind::Block))).push(RefEv::Leave)
}
pub open spec fn sc_body<'ast>(x0: StatementList<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 1int
{
    sc_stmts(x0, t)
}
pub open spec fn sc_declr<'ast>(x0: Declarator<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    sc_oexpr(x0.init, sc_pat(x0.id.item, t))
}
pub open spec fn sc_forinit<'ast>(x0: ForInit<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        ForInit::Declaration(d) => sc_decls(d.declarators, t),
        ForInit::Expression(k) => sc_expr(k, t),
    }
}
pub open spec fn sc_catch<'ast>(x0: CatchClause<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    sc_body(x0.body.item.body, sc_pat(x0.param.item, t.push(RefEv::Enter(ScopeKind::Block)))).push(RefEv::Leave)
}
pub open spec fn sc_case<'ast>(x0: SwitchCase<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    sc_body(x0.consequent, sc_oexpr(x0.test, t))
}
pub open spec fn sc_import<'ast>(x0: ForImportSpecifier<'ast>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        ForImportSpecifier::ImportSpecifier(s) => t.push(RefEv::Decl(s.local.item)),
        ForImportSpecifier::ImportDefaultSpecifier(s) => t.push(RefEv::Decl(s.local.item)),
        ForImportSpecifier::ImportNamespaceSpecifier(s) => t.push(RefEv::Decl(s.local.item)),
    }
}
pub open spec fn sc_oexpr<'ast>(x0: Option<ExpressionNode<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        None => t,
        Some(y) => sc_expr(y, t),
    }
}
pub open spec fn sc_ostmt<'ast>(x0: Option<StatementNode<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        None => t,
        Some(y) => sc_stmt(y, t),
    }
}
pub open spec fn sc_oforinit<'ast>(x0: Option<Node<'ast, ForInit<'ast>>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        None => t,
        Some(y) => sc_forinit(y.item, t),
    }
}
pub open spec fn sc_ocatch<'ast>(x0: Option<Node<'ast, CatchClause<'ast>>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        None => t,
        Some(y) => sc_catch(y.item, t),
    }
}
pub open spec fn sc_oblock<'ast>(x0: Option<BlockNode<'ast, Statement<'ast>>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        None => t,
        Some(y) => sc_block(y.item, t),
    }
}
pub open spec fn sc_exprs<'ast>(x0: NodeList<'ast, Expression<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => sc_exprs(*tl, sc_expr((*h), t)),
    }
}
pub open spec fn sc_stmts<'ast>(x0: NodeList<'ast, Statement<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => sc_stmts(*tl, sc_stmt((*h), t)),
    }
}
pub open spec fn sc_pats<'ast>(x0: NodeList<'ast, Pattern<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => sc_pats(*tl, sc_pat((*h).item, t)),
    }
}
pub open spec fn sc_bprops<'ast>(x0: NodeList<'ast, Property<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 1int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => sc_bprops(*tl, sc_bprop((*h).item, t)),
    }
}
pub open spec fn sc_bexprs<'ast>(x0: NodeList<'ast, Expression<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 1int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => sc_bexprs(*tl, sc_bexpr((*h), t)),
    }
}
pub open spec fn sc_props<'ast>(x0: NodeList<'ast, Property<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => sc_props(*tl, sc_prop((*h).item, t)),
    }
}
pub open spec fn sc_members<'ast>(x0: NodeList<'ast, ClassMember<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => sc_members(*tl, sc_member((*h).item, t)),
    }
}
pub open spec fn sc_decls<'ast>(x0: NodeList<'ast, Declarator<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => sc_decls(*tl, sc_declr((*h).item, t)),
    }
}
pub open spec fn sc_cases<'ast>(x0: NodeList<'ast, SwitchCase<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => sc_cases(*tl, sc_case((*h).item, t)),
    }
}
pub open spec fn sc_imports<'ast>(x0: NodeList<'ast, ForImportSpecifier<'ast>>, t: Seq<RefEv<'ast>>) -> Seq<RefEv<'ast>>
    decreases x0, 0int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => sc_imports(*tl, sc_import((*h).item, t)),
    }
}
