// written by gen_codegen.py
pub open spec fn pr_sub<'ast>(x0: Expression<'ast>, n: int, t: Seq<Out>) -> Seq<Out>
    decreases x0, 1int
{
    if level(x0) < n { pr_expr(x0, t.push(Out::B(40u8))).push(Out::B(41u8)) } else { pr_expr(x0, t) }
}
pub open spec fn pr_expr<'ast>(x0: Expression<'ast>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 0int
{
    match x0 {
        Expression::Void => t,
        Expression::This(_) => t.push(Out::B(116u8)).push(Out::B(104u8)).push(Out::B(105u8)).push(Out::B(115u8)),
        Expression::Identifier(n) => wr(t, sb(n)),
        Expression::Literal(l) => pr_lit(l, t),
        Expression::Sequence(x) => pr_elist(x.body, t),
        Expression::Array(x) => pr_elist(x.body, t.push(Out::B(91u8))).push(Out::B(93u8)),
        Expression::Member(x) => wr(({ let t = t; if plain_int(x.object.item) { pr_expr((x.object).item, t.push(Out::B(40u8))).push(Out::B(41u8)) } else { pr_sub((x.object).item, 19, t) } }).push(Out::B(46u8)), sb(x.property.item)),
        Expression::ComputedMember(x) => pr_expr((x.property).item, pr_sub((x.object).item, 19, t).push(Out::B(91u8))).push(Out::B(93u8)),
        Expression::MetaProperty(x) => wr(wr(t, sb(x.meta.item)).push(Out::B(46u8)), sb(x.property.item)),
        Expression::Call(x) => pr_elist(x.arguments, pr_sub((x.callee).item, 17, t).push(Out::B(40u8))).push(Out::B(41u8)),
        Expression::Binary(x) => pr_sub((x.right).item, right_level(x), ({ let t = wr(({ let t = pr_sub((x.left).item, left_level(x.operator), t); if space_left(x) { t.push(Out::B(32u8)) } else { t.push(Out::Gap) } }), spelling(x.operator)); if space_right(x) { t.push(Out::B(32u8)) } else { t.push(Out::Gap) } })),
        Expression::Prefix(x) => ({ let t = wr(t, spelling(x.operator)); if x.operator == OperatorKind::New { pr_newop(x.operand, t.push(Out::B(32u8))) } else { pr_sub((x.operand).item, 15, ({ let t = t; if space_prefix(x) { t.push(Out::B(32u8)) } else { t } })) } }),
        Expression::Postfix(x) => wr(pr_sub((x.operand).item, 17, t), spelling(x.operator)),
        Expression::Conditional(x) => pr_sub((x.alternate).item, 1, pr_sub((x.consequent).item, 1, pr_sub((x.test).item, 5, t).push(Out::Gap).push(Out::B(63u8)).push(Out::Gap)).push(Out::Gap).push(Out::B(58u8)).push(Out::Gap)),
        Expression::Template(x) => pr_tpl(x, t),
        Expression::TaggedTemplate(x) => pr_tpl(x.quasi.item, pr_sub((x.tag).item, 17, t)),
        Expression::Spread(x) => pr_sub((x.argument).item, 1, t.push(Out::B(46u8)).push(Out::B(46u8)).push(Out::B(46u8))),
        Expression::Arrow(x) => pr_arrow(x.body, pr_params(x.params, t).push(Out::Gap).push(Out::B(61u8)).push(Out::B(62u8)).push(Out::Gap)),
        Expression::Object(x) => pr_object(x.body, t),
        Expression::Function(x) => pr_func(x, t.push(Out::B(102u8)).push(Out::B(117u8)).push(Out::B(110u8)).push(Out::B(99u8)).push(Out::B(116u8)).push(Out::B(105u8)).push(Out::B(111u8)).push(Out::B(110u8))),
        Expression::Class(x) => pr_class(x, t.push(Out::B(99u8)).push(Out::B(108u8)).push(Out::B(97u8)).push(Out::B(115u8)).push(Out::B(115u8))),
    }
}
pub open spec fn pr_newop<'ast>(x0: ExpressionNode<'ast>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 3int
{
    match x0.item {
        Expression::Call(c) => pr_elist(c.arguments, pr_newc(c.callee, t).push(Out::B(40u8))).push(Out::B(41u8)),
        _ => pr_newc(x0, t),
    }
}
pub open spec fn pr_newc<'ast>(x0: ExpressionNode<'ast>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 2int
{
    ({ let t = t; if tag_root(x0).item is Call { pr_expr((x0).item, t.push(Out::B(40u8))).push(Out::B(41u8)) } else { pr_sub((x0).item, 17, t) } })
}
pub open spec fn pr_tpl<'ast>(x0: TemplateLiteral<'ast>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 0int
{
    pr_quasis(x0.quasis, x0.expressions, t.push(Out::B(96u8))).push(Out::B(96u8))
}
pub open spec fn pr_params<'ast>(x0: PatternList<'ast>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 3int
{
    match x0 {
        List::Cons(h, tl) if *tl is Nil && h.item is Identifier => pr_pat(h.item, t),
        _ => pr_pats(x0, t.push(Out::B(40u8))).push(Out::B(41u8)),
    }
}
pub open spec fn pr_arrow<'ast>(x0: ArrowBody<'ast>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 0int
{
    match x0 {
        ArrowBody::Expression(k) => ({ let t = t; if lead(k.item) is Object { pr_expr((k).item, t.push(Out::B(40u8))).push(Out::B(41u8)) } else { pr_sub((k).item, 1, t) } }),
        ArrowBody::Block(b) => pr_block(b.item, t),
    }
}
pub open spec fn pr_object<'ast>(x0: NodeList<'ast, Property<'ast>>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 1int
{
    match x0 {
        List::Nil => t.push(Out::B(123u8)).push(Out::B(125u8)),
        List::Cons(h, tl) => pr_props(*tl, pr_prop((*h).item, t.push(Out::B(123u8)).push(Out::In).push(Out::Line))).push(Out::De).push(Out::Line).push(Out::B(125u8)),
    }
}
pub open spec fn pr_props<'ast>(x0: NodeList<'ast, Property<'ast>>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 0int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => pr_props(*tl, pr_prop((*h).item, t.push(Out::B(44u8)).push(Out::Line))),
    }
}
pub open spec fn pr_prop<'ast>(x0: Property<'ast>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 0int
{
    match x0 {
        Property::Shorthand(n) => wr(t, sb(n)),
        Property::Literal { key, value } => pr_sub((value).item, 1, pr_key(key.item, t).push(Out::B(58u8)).push(Out::Gap)),
        Property::Method { key, value } => pr_func(value.item, pr_key(key.item, t)),
        Property::Spread { argument } => pr_sub((argument).item, 1, t.push(Out::B(46u8)).push(Out::B(46u8)).push(Out::B(46u8))),
    }
}
pub open spec fn pr_key<'ast>(x0: PropertyKey<'ast>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 0int
{
    match x0 {
        PropertyKey::Computed(k) => pr_expr((k).item, t.push(Out::B(91u8))).push(Out::B(93u8)),
        PropertyKey::Literal(n) => wr(t, sb(n)),
        PropertyKey::Binary(n) => wr(t, sb(n)),
    }
}
pub open spec fn pr_func<'ast, N: PrName>(x0: Function<'ast, N>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 0int
{
    pr_block(x0.body.item, pr_pats(x0.params, x0.name.pn(({ let t = t; if x0.generator { t.push(Out::B(42u8)) } else { t } })).push(Out::B(40u8))).push(Out::B(41u8)).push(Out::Gap))
}
pub open spec fn pr_class<'ast, N: PrName>(x0: Class<'ast, N>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 0int
{
    pr_mblock(x0.body.item, ({ let t = x0.name.pn(t); if x0.extends is Some { pr_sub((x0.extends->Some_0).item, 17, t.push(Out::B(32u8)).push(Out::B(101u8)).push(Out::B(120u8)).push(Out::B(116u8)).push(Out::B(101u8)).push(Out::B(110u8)).push(Out::B(100u8)).push(Out::B(115u8)).push(Out::B(32u8))) } else { t } }).push(Out::Gap))
}
pub open spec fn pr_member<'ast>(x0: ClassMember<'ast>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 0int
{
    match x0 {
        ClassMember::Error => t,
        ClassMember::Method { is_static, key, kind, value } => pr_func(value.item, pr_key(key.item, ({ let t = ({ let t = t; if is_static { t.push(Out::B(115u8)).push(Out::B(116u8)).push(Out::B(97u8)).push(Out::B(116u8)).push(Out::B(105u8)).push(Out::B(99u8)).push(Out::B(32u8)) } else { t } }); if kind is Get { t.push(Out::B(103u8)).push(Out::B(101u8)).push(Out::B(116u8)).push(Out::B(32u8)) } else { ({ let t = t; if kind is Set { t.push(Out::B(115u8)).push(Out::B(101u8)).push(Out::B(116u8)).push(Out::B(32u8)) } else { t } }) } }))),
        ClassMember::Literal { is_static, key, value } => pr_sub((value).item, 1, pr_key(key.item, ({ let t = t; if is_static { t.push(Out::B(115u8)).push(Out::B(116u8)).push(Out::B(97u8)).push(Out::B(116u8)).push(Out::B(105u8)).push(Out::B(99u8)).push(Out::B(32u8)) } else { t } })).push(Out::Gap).push(Out::B(61u8)).push(Out::Gap)).push(Out::B(59u8)),
    }
}
pub open spec fn pr_pat<'ast>(x0: Pattern<'ast>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 0int
{
    match x0 {
        Pattern::Void => t,
        Pattern::Identifier(n) => wr(t, sb(n)),
        Pattern::ObjectPattern { properties } => pr_bprops(properties, t.push(Out::B(123u8))).push(Out::B(125u8)),
        Pattern::ArrayPattern { elements } => pr_pats(elements, t.push(Out::B(91u8))).push(Out::B(93u8)),
        Pattern::RestElement { argument } => wr(t.push(Out::B(46u8)).push(Out::B(46u8)).push(Out::B(46u8)), sb(argument.item)),
        Pattern::AssignmentPattern { left, right } => pr_sub((right).item, 1, pr_pat(left.item, t).push(Out::Gap).push(Out::B(61u8)).push(Out::Gap)),
    }
}
pub open spec fn pr_declaration<'ast>(x0: DeclarationStatement<'ast>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 0int
{
    pr_decls(x0.declarators, ({ let t = t; if x0.kind is Var { t.push(Out::B(118u8)).push(Out::B(97u8)).push(Out::B(114u8)).push(Out::B(32u8)) } else { ({ let t = t; if x0.kind is Let { t.push(Out::B(108u8)).push(Out::B(101u8)).push(Out::B(116u8)).push(Out::B(32u8)) } else { t.push(Out::B(99u8)).push(Out::B(111u8)).push(Out::B(110u8)).push(Out::B(115u8)).push(Out::B(116u8)).push(Out::B(32u8)) } }) } }))
}
pub open spec fn pr_declr<'ast>(x0: Declarator<'ast>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 0int
{
    ({ let t = pr_pat(x0.id.item, t); if x0.init is Some { pr_sub((x0.init->Some_0).item, 1, t.push(Out::Gap).push(Out::B(61u8)).push(Out::Gap)) } else { t } })
}
pub open spec fn pr_stmt<'ast>(x0: Statement<'ast>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 0int
{
    match x0 {
        Statement::Empty => t,
        Statement::Debugger => t.push(Out::B(100u8)).push(Out::B(101u8)).push(Out::B(98u8)).push(Out::B(117u8)).push(Out::B(103u8)).push(Out::B(103u8)).push(Out::B(101u8)).push(Out::B(114u8)),
        Statement::Expression(x) => ({ let t = t; if bare(lead(x.item)) { pr_expr((x).item, t) } else { pr_expr((x).item, t.push(Out::B(40u8))).push(Out::B(41u8)) } }).push(Out::B(59u8)),
        Statement::Declaration(x) => pr_declaration(x, t).push(Out::B(59u8)),
        Statement::Return(x) => ({ let t = t; if x.value is Some { pr_oexpr(x.value, t.push(Out::B(114u8)).push(Out::B(101u8)).push(Out::B(116u8)).push(Out::B(117u8)).push(Out::B(114u8)).push(Out::B(110u8)).push(Out::B(32u8))).push(Out::B(59u8)) } else { t.push(Out::B(114u8)).push(Out::B(101u8)).push(Out::B(116u8)).push(Out::B(117u8)).push(Out::B(114u8)).push(Out::B(110u8)).push(Out::B(59u8)) } }),
        Statement::Break(x) => ({ let t = t; if x.label is Some { wr(t.push(Out::B(98u8)).push(Out::B(114u8)).push(Out::B(101u8)).push(Out::B(97u8)).push(Out::B(107u8)).push(Out::B(32u8)), sb(x.label->Some_0.item)).push(Out::B(59u8)) } else { t.push(Out::B(98u8)).push(Out::B(114u8)).push(Out::B(101u8)).push(Out::B(97u8)).push(Out::B(107u8)).push(Out::B(59u8)) } }),
        Statement::Continue(x) => ({ let t = t; if x.label is Some { wr(t.push(Out::B(99u8)).push(Out::B(111u8)).push(Out::B(110u8)).push(Out::B(116u8)).push(Out::B(105u8)).push(Out::B(110u8)).push(Out::B(117u8)).push(Out::B(101u8)).push(Out::B(32u8)), sb(x.label->Some_0.item)).push(Out::B(59u8)) } else { t.push(Out::B(99u8)).push(Out::B(111u8)).push(Out::B(110u8)).push(Out::B(116u8)).push(Out::B(105u8)).push(Out::B(110u8)).push(Out::B(117u8)).push(Out::B(101u8)).push(Out::B(59u8)) } }),
        Statement::Throw(x) => pr_expr((x.value).item, t.push(Out::B(116u8)).push(Out::B(104u8)).push(Out::B(114u8)).push(Out::B(111u8)).push(Out::B(119u8)).push(Out::B(32u8))).push(Out::B(59u8)),
        Statement::If(x) => pr_else(x, pr_branch(x.consequent, pr_expr((x.test).item, t.push(Out::B(105u8)).push(Out::B(102u8)).push(Out::Gap).push(Out::B(40u8))).push(Out::B(41u8)).push(Out::Gap))),
        Statement::While(x) => pr_branch(x.body, pr_expr((x.test).item, t.push(Out::B(119u8)).push(Out::B(104u8)).push(Out::B(105u8)).push(Out::B(108u8)).push(Out::B(101u8)).push(Out::Gap).push(Out::B(40u8))).push(Out::B(41u8)).push(Out::Gap)),
        Statement::Do(x) => pr_expr((x.test).item, ({ let t = pr_branch(x.body, ({ let t = t.push(Out::B(100u8)).push(Out::B(111u8)); if block(x.body) { t.push(Out::Gap) } else { t.push(Out::B(32u8)) } })); if open_ended(x.body.item) { t.push(Out::B(59u8)) } else { t } }).push(Out::B(119u8)).push(Out::B(104u8)).push(Out::B(105u8)).push(Out::B(108u8)).push(Out::B(101u8)).push(Out::Gap).push(Out::B(40u8))).push(Out::B(41u8)),
        Statement::For(x) => pr_branch(x.body, pr_oexpr(x.update, pr_oexpr(x.test, pr_oforinit(x.init, t.push(Out::B(102u8)).push(Out::B(111u8)).push(Out::B(114u8)).push(Out::Gap).push(Out::B(40u8))).push(Out::B(59u8)).push(Out::Gap)).push(Out::B(59u8)).push(Out::Gap)).push(Out::B(41u8)).push(Out::Gap)),
        Statement::ForIn(x) => pr_branch(x.body, pr_expr((x.right).item, pr_forleft(x.left.item, t.push(Out::B(102u8)).push(Out::B(111u8)).push(Out::B(114u8)).push(Out::Gap).push(Out::B(40u8))).push(Out::B(32u8)).push(Out::B(105u8)).push(Out::B(110u8)).push(Out::B(32u8))).push(Out::B(41u8)).push(Out::Gap)),
        Statement::ForOf(x) => pr_branch(x.body, pr_expr((x.right).item, pr_forinit(x.left.item, t.push(Out::B(102u8)).push(Out::B(111u8)).push(Out::B(114u8)).push(Out::Gap).push(Out::B(40u8))).push(Out::B(32u8)).push(Out::B(111u8)).push(Out::B(102u8)).push(Out::B(32u8))).push(Out::B(41u8)).push(Out::Gap)),
        Statement::Try(x) => pr_ofinally(x.finalizer, pr_ocatch(x.handler, pr_block(x.block.item, t.push(Out::B(116u8)).push(Out::B(114u8)).push(Out::B(121u8)).push(Out::Gap)))),
        Statement::Block(x) => pr_block(x, t),
        Statement::Labeled(x) => pr_branch(x.body, wr(t, sb(x.label)).push(Out::B(58u8)).push(Out::Gap)),
        Statement::Function(x) => pr_func(x, t.push(Out::B(102u8)).push(Out::B(117u8)).push(Out::B(110u8)).push(Out::B(99u8)).push(Out::B(116u8)).push(Out::B(105u8)).push(Out::B(111u8)).push(Out::B(110u8))),
        Statement::Class(x) => pr_class(x, t.push(Out::B(99u8)).push(Out::B(108u8)).push(Out::B(97u8)).push(Out::B(115u8)).push(Out::B(115u8))),
        Statement::Switch(x) => pr_cblock(x.cases.item, pr_expr((x.discriminant).item, t.push(Out::B(115u8)).push(Out::B(119u8)).push(Out::B(105u8)).push(Out::B(116u8)).push(Out::B(99u8)).push(Out::B(104u8)).push(Out::Gap).push(Out::B(40u8))).push(Out::B(41u8))),
        Statement::Import(x) => pr_import(x, t.push(Out::B(105u8)).push(Out::B(109u8)).push(Out::B(112u8)).push(Out::B(111u8)).push(Out::B(114u8)).push(Out::B(116u8)).push(Out::B(32u8))),
    }
}
pub open spec fn pr_branch<'ast>(x0: StatementNode<'ast>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 1int
{
    ({ let t = t; if x0.item is Empty { t.push(Out::B(59u8)) } else { pr_stmt((x0).item, t) } })
}
pub open spec fn pr_else<'ast>(x0: IfStatement<'ast>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 0int
{
    match x0.alternate {
        None => t,
        Some(y) => pr_branch(y, ({ let t = ({ let t = ({ let t = t; if open_ended(x0.consequent.item) { t.push(Out::B(59u8)) } else { t } }); if block(x0.consequent) { t.push(Out::Gap) } else { t.push(Out::B(32u8)) } }).push(Out::B(101u8)).push(Out::B(108u8)).push(Out::B(115u8)).push(Out::B(101u8)); if block(y) { t.push(Out::Gap) } else { t.push(Out::B(32u8)) } })),
    }
}
pub open spec fn pr_forinit<'ast>(x0: ForInit<'ast>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 0int
{
    match x0 {
        ForInit::Declaration(d) => pr_declaration(d, t),
        ForInit::Expression(k) => ({ let t = t; if heads_in(k.item) { pr_expr((k).item, t.push(Out::B(40u8))).push(Out::B(41u8)) } else { pr_expr((k).item, t) } }),
    }
}
pub open spec fn pr_forleft<'ast>(x0: ForInit<'ast>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 1int
{
    match x0 {
        ForInit::Expression(k) => pr_sub((k).item, 12, t),
        _ => pr_forinit(x0, t),
    }
}
pub open spec fn pr_catch<'ast>(x0: CatchClause<'ast>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 0int
{
    pr_block(x0.body.item, pr_pat(x0.param.item, t.push(Out::Gap).push(Out::B(99u8)).push(Out::B(97u8)).push(Out::B(116u8)).push(Out::B(99u8)).push(Out::B(104u8)).push(Out::Gap).push(Out::B(40u8))).push(Out::B(41u8)).push(Out::Gap))
}
pub open spec fn pr_case<'ast>(x0: SwitchCase<'ast>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 0int
{
    pr_lines(x0.consequent, ({ let t = t; if x0.test is Some { pr_expr((x0.test->Some_0).item, t.push(Out::B(99u8)).push(Out::B(97u8)).push(Out::B(115u8)).push(Out::B(101u8)).push(Out::B(32u8))).push(Out::B(58u8)) } else { t.push(Out::B(100u8)).push(Out::B(101u8)).push(Out::B(102u8)).push(Out::B(97u8)).push(Out::B(117u8)).push(Out::B(108u8)).push(Out::B(116u8)).push(Out::B(58u8)) } }))
}
pub open spec fn pr_block<'ast>(x0: Block<'ast, Statement<'ast>>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 0int
{
    pr_lines(x0.body, t.push(Out::B(123u8))).push(Out::B(125u8))
}
pub open spec fn pr_mblock<'ast>(x0: Block<'ast, ClassMember<'ast>>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 0int
{
    pr_mlines(x0.body, t.push(Out::B(123u8))).push(Out::B(125u8))
}
pub open spec fn pr_cblock<'ast>(x0: Block<'ast, SwitchCase<'ast>>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 0int
{
    pr_clines(x0.body, t.push(Out::B(123u8))).push(Out::B(125u8))
}
pub open spec fn pr_oexpr<'ast>(x0: Option<ExpressionNode<'ast>>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 0int
{
    match x0 {
        None => t,
        Some(y) => pr_expr((y).item, t),
    }
}
pub open spec fn pr_oforinit<'ast>(x0: Option<Node<'ast, ForInit<'ast>>>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 0int
{
    match x0 {
        None => t,
        Some(y) => pr_forinit(y.item, t),
    }
}
pub open spec fn pr_ocatch<'ast>(x0: Option<Node<'ast, CatchClause<'ast>>>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 0int
{
    match x0 {
        None => t,
        Some(y) => pr_catch(y.item, t),
    }
}
pub open spec fn pr_ofinally<'ast>(x0: Option<BlockNode<'ast, Statement<'ast>>>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 0int
{
    match x0 {
        None => t,
        Some(y) => pr_block(y.item, t.push(Out::Gap).push(Out::B(102u8)).push(Out::B(105u8)).push(Out::B(110u8)).push(Out::B(97u8)).push(Out::B(108u8)).push(Out::B(108u8)).push(Out::B(121u8)).push(Out::Gap)),
    }
}
pub open spec fn pr_ostmt<'ast>(x0: Option<StatementNode<'ast>>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 0int
{
    match x0 {
        None => t,
        Some(y) => pr_stmt((y).item, t),
    }
}
pub open spec fn pr_elist<'ast>(x0: NodeList<'ast, Expression<'ast>>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 2int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => pr_elist_t(*tl, pr_sub(((*h)).item, 1, t)),
    }
}
pub open spec fn pr_elist_t<'ast>(x0: NodeList<'ast, Expression<'ast>>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 1int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => pr_elist_t(*tl, pr_sub(((*h)).item, 1, t.push(Out::B(44u8)).push(Out::Gap))),
    }
}
pub open spec fn pr_pats<'ast>(x0: NodeList<'ast, Pattern<'ast>>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 2int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => pr_pats_t(*tl, pr_pat((*h).item, t)),
    }
}
pub open spec fn pr_pats_t<'ast>(x0: NodeList<'ast, Pattern<'ast>>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 1int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => pr_pats_t(*tl, pr_pat((*h).item, t.push(Out::B(44u8)).push(Out::Gap))),
    }
}
pub open spec fn pr_bprops<'ast>(x0: NodeList<'ast, Property<'ast>>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 2int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => pr_bprops_t(*tl, pr_prop((*h).item, t)),
    }
}
pub open spec fn pr_bprops_t<'ast>(x0: NodeList<'ast, Property<'ast>>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 1int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => pr_bprops_t(*tl, pr_prop((*h).item, t.push(Out::B(44u8)).push(Out::Gap))),
    }
}
pub open spec fn pr_decls<'ast>(x0: NodeList<'ast, Declarator<'ast>>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 2int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => pr_decls_t(*tl, pr_declr((*h).item, t)),
    }
}
pub open spec fn pr_decls_t<'ast>(x0: NodeList<'ast, Declarator<'ast>>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 1int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => pr_decls_t(*tl, pr_declr((*h).item, t.push(Out::B(44u8)).push(Out::Gap))),
    }
}
pub open spec fn pr_imps<'ast>(x0: NodeList<'ast, ForImportSpecifier<'ast>>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 2int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => pr_imps_t(*tl, pr_imp((*h).item, t)),
    }
}
pub open spec fn pr_imps_t<'ast>(x0: NodeList<'ast, ForImportSpecifier<'ast>>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 1int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => pr_imps_t(*tl, pr_imp((*h).item, t.push(Out::B(44u8)).push(Out::Gap))),
    }
}
pub open spec fn pr_lines<'ast>(x0: NodeList<'ast, Statement<'ast>>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 2int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => pr_lines_t(*tl, *h, pr_stmt((*h).item, t.push(Out::In).push(Out::Line))).push(Out::De).push(Out::Line),
    }
}
pub open spec fn pr_lines_t<'ast>(x0: NodeList<'ast, Statement<'ast>>, p: Node<'ast, Statement<'ast>>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 1int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => pr_lines_t(*tl, *h, pr_stmt((*h).item, ({ let t = t; if open_ended(p.item) { t.push(Out::B(59u8)) } else { t } }).push(Out::Line))),
    }
}
pub open spec fn pr_mlines<'ast>(x0: NodeList<'ast, ClassMember<'ast>>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 2int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => pr_mlines_t(*tl, *h, pr_member((*h).item, t.push(Out::In).push(Out::Line))).push(Out::De).push(Out::Line),
    }
}
pub open spec fn pr_mlines_t<'ast>(x0: NodeList<'ast, ClassMember<'ast>>, p: Node<'ast, ClassMember<'ast>>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 1int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => pr_mlines_t(*tl, *h, pr_member((*h).item, ({ let t = t; if false { t.push(Out::B(59u8)) } else { t } }).push(Out::Line))),
    }
}
pub open spec fn pr_clines<'ast>(x0: NodeList<'ast, SwitchCase<'ast>>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 2int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => pr_clines_t(*tl, *h, pr_case((*h).item, t.push(Out::In).push(Out::Line))).push(Out::De).push(Out::Line),
    }
}
pub open spec fn pr_clines_t<'ast>(x0: NodeList<'ast, SwitchCase<'ast>>, p: Node<'ast, SwitchCase<'ast>>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 1int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => pr_clines_t(*tl, *h, pr_case((*h).item, ({ let t = t; if case_open(p.item) { t.push(Out::B(59u8)) } else { t } }).push(Out::Line))),
    }
}
pub open spec fn pr_quasis<'ast>(x0: NodeList<'ast, &'ast str>, es: ExpressionList<'ast>, t: Seq<Out>) -> Seq<Out>
    decreases es, 2int
{
    match x0 {
        List::Nil => t,
        List::Cons(q, tl) => pr_quasis_t(*tl, es, wr(t, sb((*q).item))),
    }
}
pub open spec fn pr_quasis_t<'ast>(x0: NodeList<'ast, &'ast str>, es: ExpressionList<'ast>, t: Seq<Out>) -> Seq<Out>
    decreases es, 1int
{
    match (x0, es) {
        (List::Cons(q, tl), List::Cons(e, etl)) => pr_quasis_t(*tl, *etl, wr(pr_expr((*e).item, t.push(Out::B(36u8)).push(Out::B(123u8)).push(Out::Gap)).push(Out::Gap).push(Out::B(125u8)), sb((*q).item))),
        _ => t,
    }
}
pub open spec fn pr_imp<'ast>(x0: ForImportSpecifier<'ast>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 0int
{
    match x0 {
        ForImportSpecifier::ImportDefaultSpecifier(s) => wr(t, sb(s.local.item)),
        ForImportSpecifier::ImportNamespaceSpecifier(s) => wr(t.push(Out::B(42u8)).push(Out::B(32u8)).push(Out::B(97u8)).push(Out::B(115u8)).push(Out::B(32u8)), sb(s.local.item)),
        ForImportSpecifier::ImportSpecifier(s) => ({ let t = wr(t, sb(s.imported.item)); if sb(s.imported.item) == sb(s.local.item) { t } else { wr(t.push(Out::B(32u8)).push(Out::B(97u8)).push(Out::B(115u8)).push(Out::B(32u8)), sb(s.local.item)) } }),
    }
}
pub open spec fn pr_import<'ast>(x0: ImportDeclaration<'ast>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 0int
{
    wr(({ let t = t; if x0.specifiers is Nil { t } else { ({ let t = pr_imps(keep(x0.specifiers,false), t); if keep(x0.specifiers, true) is Nil { t } else { pr_imps(keep(x0.specifiers,true), ({ let t = t; if keep(x0.specifiers, false) is Nil { t } else { t.push(Out::B(44u8)) } }).push(Out::B(123u8))).push(Out::B(125u8)) } }).push(Out::B(32u8)).push(Out::B(102u8)).push(Out::B(114u8)).push(Out::B(111u8)).push(Out::B(109u8)).push(Out::B(32u8)) } }).push(Out::B(quote(sb(x0.source)))), sb(x0.source)).push(Out::B(quote(sb(x0.source))))
}
pub open spec fn pr_module<'ast>(x0: StatementList<'ast>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 3int
{
    match x0 {
        List::Nil => t,
        List::Cons(h, tl) => pr_lines_t(*tl, *h, pr_stmt((*h).item, t)),
    }
}
pub open spec fn pr_lit<'ast>(x0: Literal<'ast>, t: Seq<Out>) -> Seq<Out>
    decreases x0, 0int
{
    match x0 {
        Literal::Undefined => t.push(Out::B(117u8)).push(Out::B(110u8)).push(Out::B(100u8)).push(Out::B(101u8)).push(Out::B(102u8)).push(Out::B(105u8)).push(Out::B(110u8)).push(Out::B(101u8)).push(Out::B(100u8)),
        Literal::Null => t.push(Out::B(110u8)).push(Out::B(117u8)).push(Out::B(108u8)).push(Out::B(108u8)),
        Literal::True => t.push(Out::B(116u8)).push(Out::B(114u8)).push(Out::B(117u8)).push(Out::B(101u8)),
        Literal::False => t.push(Out::B(102u8)).push(Out::B(97u8)).push(Out::B(108u8)).push(Out::B(115u8)).push(Out::B(101u8)),
        Literal::Number(s) => wr(t, sb(s)),
        Literal::Binary(s) => wr(t, sb(s)),
        Literal::String(s) => wr(t, sb(s)),
        Literal::RegEx(s) => wr(t, sb(s)),
    }
}
