// written by gen_visitor.py
pub open spec fn arr_expr<'ast>(x0: ExpressionNode<'ast>, vk: ExpressionNode<'ast>) -> bool
    decreases x0, 0int
{
    match x0.item {
        Expression::Void => false,
        Expression::This(_) => false,
        Expression::Identifier(x) => false,
        Expression::Literal(x) => false,
        Expression::Sequence(x) => arr_exprs(x.body, vk),
        Expression::Array(x) => arr_exprs(x.body, vk),
        Expression::Member(x) => arr_expr(x.object, vk),
        Expression::ComputedMember(x) => arr_expr(x.object, vk) || arr_expr(x.property, vk),
        Expression::MetaProperty(x) => false,
        Expression::Call(x) => arr_expr(x.callee, vk) || arr_exprs(x.arguments, vk),
        Expression::Binary(x) => arr_expr(x.left, vk) || arr_expr(x.right, vk),
        Expression::Prefix(x) => arr_expr(x.operand, vk),
        Expression::Postfix(x) => arr_expr(x.operand, vk),
        Expression::Conditional(x) => arr_expr(x.test, vk) || arr_expr(x.consequent, vk) || arr_expr(x.alternate, vk),
        Expression::Template(x) => arr_exprs(x.expressions, vk),
        Expression::TaggedTemplate(x) => arr_expr(x.tag, vk) || arr_exprs(x.quasi.item.expressions, vk),
        Expression::Spread(x) => arr_expr(x.argument, vk),
        Expression::Arrow(x) => vk == x0 || arr_pats(x.params, vk) || arr_arrow(x.body, vk),
        Expression::Object(x) => arr_props(x.body, vk),
        Expression::Function(x) => arr_func(x, vk),
        Expression::Class(x) => arr_class(x, vk),
    }
}
pub open spec fn arr_stmt<'ast>(x0: StatementNode<'ast>, vk: ExpressionNode<'ast>) -> bool
    decreases x0, 0int
{
    match x0.item {
        Statement::Empty => false,
        Statement::Debugger => false,
        Statement::Expression(x) => arr_expr(x, vk),
        Statement::Declaration(x) => arr_decls(x.declarators, vk),
        Statement::Return(x) => arr_oexpr(x.value, vk),
        Statement::Break(x) => false,
        Statement::Continue(x) => false,
        Statement::Throw(x) => arr_expr(x.value, vk),
        Statement::If(x) => arr_expr(x.test, vk) || arr_stmt(x.consequent, vk) || arr_ostmt(x.alternate, vk),
        Statement::While(x) => arr_expr(x.test, vk) || arr_stmt(x.body, vk),
        Statement::Do(x) => arr_stmt(x.body, vk) || arr_expr(x.test, vk),
        Statement::For(x) => arr_oforinit(x.init, vk) || arr_oexpr(x.test, vk) || arr_oexpr(x.update, vk) || arr_stmt(x.body, vk),
        Statement::ForIn(x) => arr_forinit(x.left.item, vk) || arr_expr(x.right, vk) || arr_stmt(x.body, vk),
        Statement::ForOf(x) => arr_forinit(x.left.item, vk) || arr_expr(x.right, vk) || arr_stmt(x.body, vk),
        Statement::Try(x) => arr_block(x.block.item, vk) || arr_ocatch(x.handler, vk) || arr_oblock(x.finalizer, vk),
        Statement::Block(x) => arr_block(x, vk),
        Statement::Labeled(x) => arr_stmt(x.body, vk),
        Statement::Switch(x) => arr_expr(x.discriminant, vk) || arr_cases(x.cases.item.body, vk),
        Statement::Function(x) => arr_func(x, vk),
        Statement::Class(x) => arr_class(x, vk),
        Statement::Import(x) => arr_imports(x.specifiers, vk),
    }
}
pub open spec fn arr_pat<'ast>(x0: Pattern<'ast>, vk: ExpressionNode<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        Pattern::Void => false,
        Pattern::Identifier(n) => false,
        Pattern::ObjectPattern { properties } => arr_bprops(properties, vk),
        Pattern::ArrayPattern { elements } => arr_pats(elements, vk),
        Pattern::RestElement { argument } => false,
        Pattern::AssignmentPattern { left, right } => arr_pat(left.item, vk) || arr_expr(right, vk),
    }
}
pub open spec fn arr_bprop<'ast>(x0: Property<'ast>, vk: ExpressionNode<'ast>) -> bool
    decreases x0, 1int
{
    match x0 {
        Property::Shorthand(n) => false,
        Property::Literal { key, value } => arr_key(key.item, vk) || arr_bexpr(value, vk),
        Property::Method { .. } => arr_prop(x0, vk),
        Property::Spread { argument } => arr_bexpr(argument, vk),
    }
}
pub open spec fn arr_bexpr<'ast>(x0: ExpressionNode<'ast>, vk: ExpressionNode<'ast>) -> bool
    decreases x0, 1int
{
    match x0.item {
        Expression::Identifier(n) => false,
        Expression::Object(o) => arr_bprops(o.body, vk),
        Expression::Array(a) => arr_bexprs(a.body, vk),
        Expression::Spread(s) => arr_bexpr(s.argument, vk),
        Expression::Binary(BinaryExpression { operator: OperatorKind::Assign, left, right }) => arr_bexpr(left, vk) || arr_expr(right, vk),
        _ => arr_expr(x0, vk),
    }
}
pub open spec fn arr_prop<'ast>(x0: Property<'ast>, vk: ExpressionNode<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        Property::Shorthand(n) => false,
        Property::Literal { key, value } => arr_key(key.item, vk) || arr_expr(value, vk),
        Property::Method { key, value } => arr_key(key.item, vk) || arr_func(value.item, vk),
        Property::Spread { argument } => arr_expr(argument, vk),
    }
}
pub open spec fn arr_key<'ast>(x0: PropertyKey<'ast>, vk: ExpressionNode<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        PropertyKey::Computed(k) => arr_expr(k, vk),
        _ => false,
    }
}
pub open spec fn arr_member<'ast>(x0: ClassMember<'ast>, vk: ExpressionNode<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        ClassMember::Error => false,
        ClassMember::Method { is_static, key, kind, value } => arr_key(key.item, vk) || arr_func(value.item, vk),
        ClassMember::Literal { is_static, key, value } => arr_key(key.item, vk) || arr_expr(value, vk),
    }
}
pub open spec fn arr_func<'ast, N>(x0: Function<'ast, N>, vk: ExpressionNode<'ast>) -> bool
    decreases x0, 0int
{
    arr_pats(x0.params, vk) || arr_body(x0.body.item.body, vk)
}
pub open spec fn arr_class<'ast, N>(x0: Class<'ast, N>, vk: ExpressionNode<'ast>) -> bool
    decreases x0, 0int
{
    arr_oexpr(x0.extends, vk) || arr_members(x0.body.item.body, vk)
}
pub open spec fn arr_arrow<'ast>(x0: ArrowBody<'ast>, vk: ExpressionNode<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        ArrowBody::Expression(k) => arr_expr(k, vk),
        ArrowBody::Block(b) => arr_body(b.item.body, vk),
    }
}
pub open spec fn arr_block<'ast>(x0: Block<'ast, Statement<'ast>>, vk: ExpressionNode<'ast>) -> bool
    decreases x0, 0int
{
    arr_body(x0.body, vk)
}
pub open spec fn arr_body<'ast>(x0: StatementList<'ast>, vk: ExpressionNode<'ast>) -> bool
    decreases x0, 1int
{
    arr_stmts(x0, vk)
}
pub open spec fn arr_declr<'ast>(x0: Declarator<'ast>, vk: ExpressionNode<'ast>) -> bool
    decreases x0, 0int
{
    arr_pat(x0.id.item, vk) || arr_oexpr(x0.init, vk)
}
pub open spec fn arr_forinit<'ast>(x0: ForInit<'ast>, vk: ExpressionNode<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        ForInit::Declaration(d) => arr_decls(d.declarators, vk),
        ForInit::Expression(k) => arr_expr(k, vk),
    }
}
pub open spec fn arr_catch<'ast>(x0: CatchClause<'ast>, vk: ExpressionNode<'ast>) -> bool
    decreases x0, 0int
{
    arr_pat(x0.param.item, vk) || arr_body(x0.body.item.body, vk)
}
pub open spec fn arr_case<'ast>(x0: SwitchCase<'ast>, vk: ExpressionNode<'ast>) -> bool
    decreases x0, 0int
{
    arr_oexpr(x0.test, vk) || arr_body(x0.consequent, vk)
}
pub open spec fn arr_import<'ast>(x0: ForImportSpecifier<'ast>, vk: ExpressionNode<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        ForImportSpecifier::ImportSpecifier(s) => false,
        ForImportSpecifier::ImportDefaultSpecifier(s) => false,
        ForImportSpecifier::ImportNamespaceSpecifier(s) => false,
    }
}
pub open spec fn arr_oexpr<'ast>(x0: Option<ExpressionNode<'ast>>, vk: ExpressionNode<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        None => false,
        Some(y) => arr_expr(y, vk),
    }
}
pub open spec fn arr_ostmt<'ast>(x0: Option<StatementNode<'ast>>, vk: ExpressionNode<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        None => false,
        Some(y) => arr_stmt(y, vk),
    }
}
pub open spec fn arr_oforinit<'ast>(x0: Option<Node<'ast, ForInit<'ast>>>, vk: ExpressionNode<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        None => false,
        Some(y) => arr_forinit(y.item, vk),
    }
}
pub open spec fn arr_ocatch<'ast>(x0: Option<Node<'ast, CatchClause<'ast>>>, vk: ExpressionNode<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        None => false,
        Some(y) => arr_catch(y.item, vk),
    }
}
pub open spec fn arr_oblock<'ast>(x0: Option<BlockNode<'ast, Statement<'ast>>>, vk: ExpressionNode<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        None => false,
        Some(y) => arr_block(y.item, vk),
    }
}
pub open spec fn arr_exprs<'ast>(x0: NodeList<'ast, Expression<'ast>>, vk: ExpressionNode<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        List::Nil => false,
        List::Cons(h, tl) => arr_expr((*h), vk) || arr_exprs(*tl, vk),
    }
}
pub open spec fn arr_stmts<'ast>(x0: NodeList<'ast, Statement<'ast>>, vk: ExpressionNode<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        List::Nil => false,
        List::Cons(h, tl) => arr_stmt((*h), vk) || arr_stmts(*tl, vk),
    }
}
pub open spec fn arr_pats<'ast>(x0: NodeList<'ast, Pattern<'ast>>, vk: ExpressionNode<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        List::Nil => false,
        List::Cons(h, tl) => arr_pat((*h).item, vk) || arr_pats(*tl, vk),
    }
}
pub open spec fn arr_bprops<'ast>(x0: NodeList<'ast, Property<'ast>>, vk: ExpressionNode<'ast>) -> bool
    decreases x0, 1int
{
    match x0 {
        List::Nil => false,
        List::Cons(h, tl) => arr_bprop((*h).item, vk) || arr_bprops(*tl, vk),
    }
}
pub open spec fn arr_bexprs<'ast>(x0: NodeList<'ast, Expression<'ast>>, vk: ExpressionNode<'ast>) -> bool
    decreases x0, 1int
{
    match x0 {
        List::Nil => false,
        List::Cons(h, tl) => arr_bexpr((*h), vk) || arr_bexprs(*tl, vk),
    }
}
pub open spec fn arr_props<'ast>(x0: NodeList<'ast, Property<'ast>>, vk: ExpressionNode<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        List::Nil => false,
        List::Cons(h, tl) => arr_prop((*h).item, vk) || arr_props(*tl, vk),
    }
}
pub open spec fn arr_members<'ast>(x0: NodeList<'ast, ClassMember<'ast>>, vk: ExpressionNode<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        List::Nil => false,
        List::Cons(h, tl) => arr_member((*h).item, vk) || arr_members(*tl, vk),
    }
}
pub open spec fn arr_decls<'ast>(x0: NodeList<'ast, Declarator<'ast>>, vk: ExpressionNode<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        List::Nil => false,
        List::Cons(h, tl) => arr_declr((*h).item, vk) || arr_decls(*tl, vk),
    }
}
pub open spec fn arr_cases<'ast>(x0: NodeList<'ast, SwitchCase<'ast>>, vk: ExpressionNode<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        List::Nil => false,
        List::Cons(h, tl) => arr_case((*h).item, vk) || arr_cases(*tl, vk),
    }
}
pub open spec fn arr_imports<'ast>(x0: NodeList<'ast, ForImportSpecifier<'ast>>, vk: ExpressionNode<'ast>) -> bool
    decreases x0, 0int
{
    match x0 {
        List::Nil => false,
        List::Cons(h, tl) => arr_import((*h).item, vk) || arr_imports(*tl, vk),
    }
}
