// written by gen_parser_wf.py

/// whether a text is one that a token of this kind has (unit lexer)
pub uninterp spec fn kind_text(k: Token, t: &str) -> bool;
pub open spec fn lexed<'a>(s: Seq<Tok<'a>>) -> bool { forall|i: int| kind_text((#[trigger] at(s, i)).kind, at(s, i).text) }
#[verifier::external_body] pub proof fn toks_lexed(source: &str) ensures lexed(toks_of(source)) {}
pub open spec fn wf_lit<'a>(x: Literal<'a>) -> bool {
    match x {
        Literal::String(t) => kind_text(Token::LiteralString, t),
        Literal::Number(t) => kind_text(Token::LiteralNumber, t),
        Literal::Binary(t) => kind_text(Token::LiteralBinary, t),
        Literal::RegEx(t) => kind_text(Token::LiteralRegEx, t),
        _ => true,
    }
}
pub open spec fn wf_expr<'a>(x: Expression<'a>) -> bool
    decreases x
{
    match x {
        Expression::Void => false,
        Expression::Literal(x) => wf_lit(x),
        Expression::Sequence(x) => (forall|k: int| 0 <= k < x.body.q@.len() ==> wf_expr(*(#[trigger] x.body.q@[k]).item)),
        Expression::Array(x) => (forall|k: int| 0 <= k < x.body.q@.len() ==> (*(#[trigger] x.body.q@[k]).item is Void || wf_expr(*x.body.q@[k].item))),
        Expression::Member(x) => wf_expr(*x.object.item),
        Expression::ComputedMember(x) => wf_expr(*x.object.item) && wf_expr(*x.property.item),
        Expression::Call(x) => wf_expr(*x.callee.item) && (forall|k: int| 0 <= k < x.arguments.q@.len() ==> wf_expr(*(#[trigger] x.arguments.q@[k]).item)),
        Expression::Binary(x) => wf_expr(*x.left.item) && wf_expr(*x.right.item),
        Expression::Prefix(x) => wf_expr(*x.operand.item),
        Expression::Postfix(x) => wf_expr(*x.operand.item),
        Expression::Conditional(x) => wf_expr(*x.test.item) && wf_expr(*x.consequent.item) && wf_expr(*x.alternate.item),
        Expression::Template(x) => wf_tpl(x),
        Expression::TaggedTemplate(x) => wf_expr(*x.tag.item) && wf_tpl(*x.quasi.item),
        Expression::Spread(x) => wf_expr(*x.argument.item),
        Expression::Arrow(x) => wf_arrow(x),
        Expression::Object(x) => (forall|k: int| 0 <= k < x.body.q@.len() ==> wf_prop(*(#[trigger] x.body.q@[k]).item)),
        Expression::Function(x) => wf_func(x),
        Expression::Class(x) => wf_class(x),
        Expression::This(_) => true,
        Expression::Identifier(_) => true,
        Expression::MetaProperty(_) => true,
    }
}
pub open spec fn wf_stmt<'a>(x: Statement<'a>) -> bool
    decreases x
{
    match x {
        Statement::Empty => true,
        Statement::Debugger => true,
        Statement::Break(_) => true,
        Statement::Continue(_) => true,
        Statement::Import(_) => true,
        Statement::Expression(x) => wf_expr(*x.item),
        Statement::Declaration(x) => wf_declaration(x),
        Statement::Return(x) => (match x.value { Some(y) => wf_expr(*y.item), None => true }),
        Statement::Throw(x) => wf_expr(*x.value.item),
        Statement::If(x) => wf_expr(*x.test.item) && wf_stmt(*x.consequent.item) && (match x.alternate { Some(y) => wf_stmt(*y.item), None => true }),
        Statement::While(x) => wf_expr(*x.test.item) && wf_stmt(*x.body.item),
        Statement::Do(x) => wf_stmt(*x.body.item) && wf_expr(*x.test.item),
        Statement::For(x) => (match x.init { Some(y) => wf_forinit(*y.item), None => true }) && (match x.test { Some(y) => wf_expr(*y.item), None => true }) && (match x.update { Some(y) => wf_expr(*y.item), None => true }) && wf_stmt(*x.body.item),
        Statement::ForIn(x) => wf_forinit(*x.left.item) && wf_expr(*x.right.item) && wf_stmt(*x.body.item),
        Statement::ForOf(x) => wf_forinit(*x.left.item) && wf_expr(*x.right.item) && wf_stmt(*x.body.item),
        Statement::Try(x) => wf_block(*x.block.item) && (match x.handler { Some(y) => wf_catch(*y.item), None => true }) && (match x.finalizer { Some(y) => wf_block(*y.item), None => true }),
        Statement::Block(x) => wf_block(x),
        Statement::Labeled(x) => wf_stmt(*x.body.item),
        Statement::Function(x) => wf_func(x),
        Statement::Class(x) => wf_class(x),
        Statement::Switch(x) => wf_expr(*x.discriminant.item) && wf_cblock(*x.cases.item),
    }
}
pub open spec fn wf_pat<'a>(x: Pattern<'a>) -> bool
    decreases x
{
    match x {
        Pattern::Void => false,
        Pattern::Identifier(_) => true,
        Pattern::RestElement { argument: _ } => true,
        Pattern::ObjectPattern { properties } => (forall|k: int| 0 <= k < properties.q@.len() ==> wf_prop(*(#[trigger] properties.q@[k]).item)),
        Pattern::ArrayPattern { elements } => (forall|k: int| 0 <= k < elements.q@.len() ==> (*(#[trigger] elements.q@[k]).item is Void || wf_pat(*elements.q@[k].item))),
        Pattern::AssignmentPattern { left, right } => wf_pat(*left.item) && wf_expr(*right.item),
    }
}
pub open spec fn wf_prop<'a>(x: Property<'a>) -> bool
    decreases x
{
    match x {
        Property::Shorthand(_) => true,
        Property::Literal { key, value } => wf_key(*key.item) && wf_expr(*value.item),
        Property::Method { key, value } => wf_key(*key.item) && wf_func(*value.item),
        Property::Spread { argument } => wf_expr(*argument.item),
    }
}
pub open spec fn wf_key<'a>(x: PropertyKey<'a>) -> bool
    decreases x
{
    match x {
        PropertyKey::Computed(x) => wf_expr(*x.item),
        PropertyKey::Literal(_) => true,
        PropertyKey::Binary(_) => true,
    }
}
pub open spec fn wf_member<'a>(x: ClassMember<'a>) -> bool
    decreases x
{
    match x {
        ClassMember::Error => false,
        ClassMember::Method { is_static: _, key, kind: _, value } => wf_key(*key.item) && wf_func(*value.item),
        ClassMember::Literal { is_static: _, key, value } => wf_key(*key.item) && wf_expr(*value.item),
    }
}
pub open spec fn wf_forinit<'a>(x: ForInit<'a>) -> bool
    decreases x
{
    match x {
        ForInit::Declaration(x) => wf_declaration(x),
        ForInit::Expression(x) => wf_expr(*x.item),
    }
}
pub open spec fn wf_declr<'a>(x: Declarator<'a>) -> bool
    decreases x
{
    wf_pat(*x.id.item) && (match x.init { Some(y) => wf_expr(*y.item), None => true })
}
pub open spec fn wf_declaration<'a>(x: DeclarationStatement<'a>) -> bool
    decreases x
{
    (forall|k: int| 0 <= k < x.declarators.q@.len() ==> wf_declr(*(#[trigger] x.declarators.q@[k]).item))
}
pub open spec fn wf_case<'a>(x: SwitchCase<'a>) -> bool
    decreases x
{
    (match x.test { Some(y) => wf_expr(*y.item), None => true }) && (forall|k: int| 0 <= k < x.consequent.q@.len() ==> wf_stmt(*(#[trigger] x.consequent.q@[k]).item))
}
pub open spec fn wf_catch<'a>(x: CatchClause<'a>) -> bool
    decreases x
{
    wf_pat(*x.param.item) && wf_block(*x.body.item)
}
pub open spec fn wf_block<'a>(x: Block<'a, Statement<'a>>) -> bool
    decreases x
{
    (forall|k: int| 0 <= k < x.body.q@.len() ==> wf_stmt(*(#[trigger] x.body.q@[k]).item))
}
pub open spec fn wf_cblock<'a>(x: Block<'a, SwitchCase<'a>>) -> bool
    decreases x
{
    (forall|k: int| 0 <= k < x.body.q@.len() ==> wf_case(*(#[trigger] x.body.q@[k]).item))
}
pub open spec fn wf_mblock<'a>(x: Block<'a, ClassMember<'a>>) -> bool
    decreases x
{
    (forall|k: int| 0 <= k < x.body.q@.len() ==> wf_member(*(#[trigger] x.body.q@[k]).item))
}
pub open spec fn wf_func<'a, N>(x: Function<'a, N>) -> bool
    decreases x
{
    (forall|k: int| 0 <= k < x.params.q@.len() ==> wf_pat(*(#[trigger] x.params.q@[k]).item)) && wf_block(*x.body.item)
}
pub open spec fn wf_class<'a, N>(x: Class<'a, N>) -> bool
    decreases x
{
    (match x.extends { Some(y) => wf_expr(*y.item), None => true }) && wf_mblock(*x.body.item)
}
pub open spec fn wf_tpl<'a>(x: TemplateLiteral<'a>) -> bool
    decreases x
{
    (forall|k: int| 0 <= k < x.expressions.q@.len() ==> wf_expr(*(#[trigger] x.expressions.q@[k]).item))
}
pub open spec fn wf_arrow<'a>(x: ArrowExpression<'a>) -> bool
    decreases x
{
    (forall|k: int| 0 <= k < x.params.q@.len() ==> wf_pat(*(#[trigger] x.params.q@[k]).item)) && (match x.body { ArrowBody::Block(y) => wf_block(*y.item), ArrowBody::Expression(y) => wf_expr(*y.item) })
}

pub mod vx_wf0 {
use super::*;
pub proof fn wp_pattern<'a>(e: ExpressionNode<'a>)
    requires wf_expr(*e.item), pattern_of(e) is Some
    ensures wf_pat(*(pattern_of(e)->0).item)
    decreases e
{
    match *e.item {
        Expression::Binary(b) => { wp_pattern(b.left); }
        _ => {}
    }
}
pub proof fn wp_patterns<'a>(q: Seq<ExpressionNode<'a>>, k0: int, acc: Seq<Node<'a, Pattern<'a>>>)
    requires (forall|k: int| 0 <= k < q.len() ==> wf_expr(*(#[trigger] q[k]).item)), (forall|k: int| 0 <= k < acc.len() ==> wf_pat(*(#[trigger] acc[k]).item)), patterns_of(q, k0, acc) is Some
    ensures (forall|k: int| 0 <= k < (patterns_of(q, k0, acc)->0).len() ==> wf_pat(*(#[trigger] (patterns_of(q, k0, acc)->0)[k]).item))
    decreases q.len() - k0
{
    if 0 <= k0 < q.len() {
        wp_pattern(q[k0]);
        wp_patterns(q, k0 + 1, acc.push(pattern_of(q[k0])->0));
    }
}
pub proof fn wp_left<'a>(left: ExpressionNode<'a>)
    requires wf_expr(*left.item)
    ensures (forall|k: int| 0 <= k < arrow_params(left).len() ==> wf_expr(*(#[trigger] arrow_params(left)[k]).item))
{
}
/// p_program, one step
pub proof fn u_program<'a>(s: Seq<Tok<'a>>, i: int)
    ensures p_program(s, i) == ({
        p_program_rest(s, i, Seq::empty()) })
{
    reveal(p_program);
    reveal(p_program_rest);
}
pub proof fn w_program<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_program(s, i) is Some
    ensures ({ let x = (p_program(s, i)->0).0; (forall|k: int| 0 <= k < x.len() ==> wf_stmt(*(#[trigger] x[k]).item)) })
    decreases rem(s, i), 40int, 0int
{
    u_program(s, i);
    if p_program_rest(s, i, Seq::empty()) is Some { w_program_rest(s, i, Seq::empty()); assert({ let x: Seq<StatementNode<'a>> = (p_program_rest(s, i, Seq::empty())->0).0; (forall|k: int| 0 <= k < x.len() ==> wf_stmt(*(#[trigger] x[k]).item)) }); }
}
/// p_program_rest, one step
pub proof fn u_program_rest<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<StatementNode<'a>>)
    ensures p_program_rest(s, i, acc) == ({
        if (at(s, i).kind is EndOfProgram) {
            Some((acc, i))
        }
        else {
            match p_statement(s, i) {
                Some((x, j3)) => if j3 > i {
                    p_program_rest(s, j3, acc.push(x))
                } else { None },
                None => None,
            }
        } })
{
    reveal(p_program_rest);
    reveal(p_statement);
}
pub proof fn w_program_rest<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<StatementNode<'a>>)
    requires lexed(s), p_program_rest(s, i, acc) is Some, (forall|k: int| 0 <= k < acc.len() ==> wf_stmt(*(#[trigger] acc[k]).item))
    ensures ({ let x = (p_program_rest(s, i, acc)->0).0; (forall|k: int| 0 <= k < x.len() ==> wf_stmt(*(#[trigger] x[k]).item)) })
    decreases rem(s, i), 30int, 0int
{
    u_program_rest(s, i, acc);
    if (at(s, i).kind is EndOfProgram) {
        assert({ let x: Seq<StatementNode<'a>> = acc; (forall|k: int| 0 <= k < x.len() ==> wf_stmt(*(#[trigger] x[k]).item)) });
    }
    else {
        if let Some((x, j1)) = p_statement(s, i) {
            if j1 > i {
                w_statement(s, i);
                if p_program_rest(s, j1, acc.push(x)) is Some { w_program_rest(s, j1, acc.push(x)); assert({ let x: Seq<StatementNode<'a>> = (p_program_rest(s, j1, acc.push(x))->0).0; (forall|k: int| 0 <= k < x.len() ==> wf_stmt(*(#[trigger] x[k]).item)) }); }
            }
        }
    }
}
/// p_statements, one step
pub proof fn u_statements<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<StatementNode<'a>>)
    ensures p_statements(s, i, acc) == ({
        if (at(s, i).kind is BraceClose || at(s, i).kind is EndOfProgram) {
            Some((acc, i))
        }
        else {
            match p_statement(s, i) {
                Some((x, j3)) => if j3 > i {
                    p_statements(s, j3, acc.push(x))
                } else { None },
                None => None,
            }
        } })
{
    reveal(p_statements);
    reveal(p_statement);
}
pub proof fn w_statements<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<StatementNode<'a>>)
    requires lexed(s), p_statements(s, i, acc) is Some, (forall|k: int| 0 <= k < acc.len() ==> wf_stmt(*(#[trigger] acc[k]).item))
    ensures ({ let x = (p_statements(s, i, acc)->0).0; (forall|k: int| 0 <= k < x.len() ==> wf_stmt(*(#[trigger] x[k]).item)) })
    decreases rem(s, i), 30int, 0int
{
    u_statements(s, i, acc);
    if (at(s, i).kind is BraceClose || at(s, i).kind is EndOfProgram) {
        assert({ let x: Seq<StatementNode<'a>> = acc; (forall|k: int| 0 <= k < x.len() ==> wf_stmt(*(#[trigger] x[k]).item)) });
    }
    else {
        if let Some((x, j1)) = p_statement(s, i) {
            if j1 > i {
                w_statement(s, i);
                if p_statements(s, j1, acc.push(x)) is Some { w_statements(s, j1, acc.push(x)); assert({ let x: Seq<StatementNode<'a>> = (p_statements(s, j1, acc.push(x))->0).0; (forall|k: int| 0 <= k < x.len() ==> wf_stmt(*(#[trigger] x[k]).item)) }); }
            }
        }
    }
}
/// p_expression_end, one step
pub proof fn u_expression_end<'a>(s: Seq<Tok<'a>>, i: int, left: ExpressionNode<'a>)
    ensures p_expression_end(s, i, left) == ({
        match p_tail(s, i, left, -1) {
            Some((r, j3)) => {
                match p_semi(s, j3) {
                    Some((u, j4)) => {
                        Some((nd(Statement::Expression(r)), j4))
                    },
                    None => None,
                }
            },
            None => None,
        } })
{
    reveal(p_expression_end);
    reveal(p_tail);
}
pub proof fn w_expression_end<'a>(s: Seq<Tok<'a>>, i: int, left: ExpressionNode<'a>)
    requires lexed(s), p_expression_end(s, i, left) is Some, wf_expr(*left.item)
    ensures ({ let x = (p_expression_end(s, i, left)->0).0; wf_stmt(*x.item) })
    decreases rem(s, i), 22int, 0int
{
    u_expression_end(s, i, left);
    if let Some((r, j1)) = p_tail(s, i, left, -1) {
        w_tail(s, i, left, -1);
        if let Some((u, j2)) = p_semi(s, j1) {
            
            assert({ let x: StatementNode<'a> = nd(Statement::Expression(r)); wf_stmt(*x.item) });
        }
    }
}
/// p_statement, one step
pub proof fn u_statement_0<'a>(s: Seq<Tok<'a>>, i: int)
    requires (at(s, i).kind is Semicolon)
    ensures p_statement(s, i) == ({
        if plain(s, i + 1) {
            Some((nd(Statement::Empty), i + 1))
        } else { None } })
{
    reveal(p_statement);
}
pub proof fn w_statement_0<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_statement(s, i) is Some, (at(s, i).kind is Semicolon)
    ensures ({ let x = (p_statement(s, i)->0).0; wf_stmt(*x.item) })
    decreases rem(s, i), 28int, 0int
{
    u_statement_0(s, i);
    if plain(s, i + 1) {
        assert({ let x: StatementNode<'a> = nd(Statement::Empty); wf_stmt(*x.item) });
    }
}
/// p_statement, one step
pub proof fn u_statement_1<'a>(s: Seq<Tok<'a>>, i: int)
    requires !((at(s, i).kind is Semicolon)), (at(s, i).kind is BraceOpen)
    ensures p_statement(s, i) == ({
        if plain(s, i + 1) {
            match p_statements(s, i + 1, Seq::empty()) {
                Some((b, j2)) => {
                    if at(s, j2).kind is BraceClose && plain(s, j2 + 1) {
                        Some((nd(Statement::Block(Block { body: lst(b) })), j2 + 1))
                    } else { None }
                },
                None => None,
            }
        } else { None } })
{
    reveal(p_statement);
    reveal(p_statements);
}
pub proof fn w_statement_1<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_statement(s, i) is Some, !((at(s, i).kind is Semicolon)), (at(s, i).kind is BraceOpen)
    ensures ({ let x = (p_statement(s, i)->0).0; wf_stmt(*x.item) })
    decreases rem(s, i), 28int, 0int
{
    u_statement_1(s, i);
    if plain(s, i + 1) {
        if let Some((b, j1)) = p_statements(s, i + 1, Seq::empty()) {
            w_statements(s, i + 1, Seq::empty());
            if at(s, j1).kind is BraceClose && plain(s, j1 + 1) {
                assert(wf_block(Block { body: lst(b) }));
                assert({ let x: StatementNode<'a> = nd(Statement::Block(Block { body: lst(b) })); wf_stmt(*x.item) });
            }
        }
    }
}
/// p_statement, one step
pub proof fn u_statement_2<'a>(s: Seq<Tok<'a>>, i: int)
    requires !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), (at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)
    ensures p_statement(s, i) == ({
        {
            match p_head(s, i, 0) {
                Some((x, j6)) => if j6 >= i {
                    p_expression_end(s, j6, x)
                } else { None },
                None => None,
            }
        } })
{
    reveal(p_statement);
    reveal(p_head);
    reveal(p_expression_end);
}
pub proof fn w_statement_2<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_statement(s, i) is Some, !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), (at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)
    ensures ({ let x = (p_statement(s, i)->0).0; wf_stmt(*x.item) })
    decreases rem(s, i), 28int, 0int
{
    u_statement_2(s, i);
    if let Some((x, j3)) = p_head(s, i, 0) {
        if j3 >= i {
            w_head(s, i, 0);
            if p_expression_end(s, j3, x) is Some { w_expression_end(s, j3, x); assert({ let x: StatementNode<'a> = (p_expression_end(s, j3, x)->0).0; wf_stmt(*x.item) }); }
        }
    }
}
/// p_statement, one step
pub proof fn u_statement_3<'a>(s: Seq<Tok<'a>>, i: int)
    requires !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), !((at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)), (at(s, i).kind is DeclarationVar)
    ensures p_statement(s, i) == ({
        p_variable(s, i, DeclarationKind::Var) })
{
    reveal(p_statement);
    reveal(p_variable);
}
pub proof fn w_statement_3<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_statement(s, i) is Some, !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), !((at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)), (at(s, i).kind is DeclarationVar)
    ensures ({ let x = (p_statement(s, i)->0).0; wf_stmt(*x.item) })
    decreases rem(s, i), 28int, 0int
{
    u_statement_3(s, i);
    if p_variable(s, i, DeclarationKind::Var) is Some { w_variable(s, i, DeclarationKind::Var); assert({ let x: StatementNode<'a> = (p_variable(s, i, DeclarationKind::Var)->0).0; wf_stmt(*x.item) }); }
}
/// p_statement, one step
pub proof fn u_statement_4<'a>(s: Seq<Tok<'a>>, i: int)
    requires !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), !((at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)), !((at(s, i).kind is DeclarationVar)), (at(s, i).kind is DeclarationLet)
    ensures p_statement(s, i) == ({
        p_variable(s, i, DeclarationKind::Let) })
{
    reveal(p_statement);
    reveal(p_variable);
}
pub proof fn w_statement_4<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_statement(s, i) is Some, !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), !((at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)), !((at(s, i).kind is DeclarationVar)), (at(s, i).kind is DeclarationLet)
    ensures ({ let x = (p_statement(s, i)->0).0; wf_stmt(*x.item) })
    decreases rem(s, i), 28int, 0int
{
    u_statement_4(s, i);
    if p_variable(s, i, DeclarationKind::Let) is Some { w_variable(s, i, DeclarationKind::Let); assert({ let x: StatementNode<'a> = (p_variable(s, i, DeclarationKind::Let)->0).0; wf_stmt(*x.item) }); }
}
/// p_statement, one step
pub proof fn u_statement_5<'a>(s: Seq<Tok<'a>>, i: int)
    requires !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), !((at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)), !((at(s, i).kind is DeclarationVar)), !((at(s, i).kind is DeclarationLet)), (at(s, i).kind is DeclarationConst)
    ensures p_statement(s, i) == ({
        p_variable(s, i, DeclarationKind::Const) })
{
    reveal(p_statement);
    reveal(p_variable);
}
pub proof fn w_statement_5<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_statement(s, i) is Some, !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), !((at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)), !((at(s, i).kind is DeclarationVar)), !((at(s, i).kind is DeclarationLet)), (at(s, i).kind is DeclarationConst)
    ensures ({ let x = (p_statement(s, i)->0).0; wf_stmt(*x.item) })
    decreases rem(s, i), 28int, 0int
{
    u_statement_5(s, i);
    if p_variable(s, i, DeclarationKind::Const) is Some { w_variable(s, i, DeclarationKind::Const); assert({ let x: StatementNode<'a> = (p_variable(s, i, DeclarationKind::Const)->0).0; wf_stmt(*x.item) }); }
}
}
pub use vx_wf0::*;
pub mod vx_wf1 {
use super::*;
/// p_statement, one step
pub proof fn u_statement_6<'a>(s: Seq<Tok<'a>>, i: int)
    requires !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), !((at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)), !((at(s, i).kind is DeclarationVar)), !((at(s, i).kind is DeclarationLet)), !((at(s, i).kind is DeclarationConst)), (at(s, i).kind is Break)
    ensures p_statement(s, i) == ({
        if plain(s, i + 1) {
            match ({
                if asi(at(s, (i + 1))) is NoSemicolon {
                    match p_ident(s, i + 1) {
                        Some((l, j18)) => {
                            match p_semi(s, j18) {
                                Some((u, j19)) => {
                                    Some((Some(l), j19))
                                },
                                None => None,
                            }
                        },
                        None => None,
                    }
                }
                else {
                    match p_semi(s, i + 1) {
                        Some((u, j20)) => {
                            Some((None, j20))
                        },
                        None => None,
                    }
                }
            }) {
                Some((l, j17)) => {
                    Some((nd(Statement::Break(BreakStatement { label: l })), j17))
                },
                None => None,
            }
        } else { None } })
{
    reveal(p_statement);
}
pub proof fn w_statement_6<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_statement(s, i) is Some, !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), !((at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)), !((at(s, i).kind is DeclarationVar)), !((at(s, i).kind is DeclarationLet)), !((at(s, i).kind is DeclarationConst)), (at(s, i).kind is Break)
    ensures ({ let x = (p_statement(s, i)->0).0; wf_stmt(*x.item) })
    decreases rem(s, i), 28int, 0int
{
    u_statement_6(s, i);
    if plain(s, i + 1) {
        if asi(at(s, (i + 1))) is NoSemicolon {
            if let Some((l, j14)) = p_ident(s, i + 1) {
                
                if let Some((u, j15)) = p_semi(s, j14) {
                    
                    if j15 >= i + 1 {
                        let l = Some(l);
                        assert({ let x: StatementNode<'a> = nd(Statement::Break(BreakStatement { label: l })); wf_stmt(*x.item) });
                    }
                }
            }
        }
        else {
            if let Some((u, j16)) = p_semi(s, i + 1) {
                
                if j16 >= i + 1 {
                    let l = None;
                    assert({ let x: StatementNode<'a> = nd(Statement::Break(BreakStatement { label: l })); wf_stmt(*x.item) });
                }
            }
        }
    }
}
/// p_statement, one step
pub proof fn u_statement_7<'a>(s: Seq<Tok<'a>>, i: int)
    requires !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), !((at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)), !((at(s, i).kind is DeclarationVar)), !((at(s, i).kind is DeclarationLet)), !((at(s, i).kind is DeclarationConst)), !((at(s, i).kind is Break)), (at(s, i).kind is Continue)
    ensures p_statement(s, i) == ({
        if plain(s, i + 1) {
            match ({
                if asi(at(s, (i + 1))) is NoSemicolon {
                    match p_ident(s, i + 1) {
                        Some((l, j25)) => {
                            match p_semi(s, j25) {
                                Some((u, j26)) => {
                                    Some((Some(l), j26))
                                },
                                None => None,
                            }
                        },
                        None => None,
                    }
                }
                else {
                    match p_semi(s, i + 1) {
                        Some((u, j27)) => {
                            Some((None, j27))
                        },
                        None => None,
                    }
                }
            }) {
                Some((l, j24)) => {
                    Some((nd(Statement::Continue(ContinueStatement { label: l })), j24))
                },
                None => None,
            }
        } else { None } })
{
    reveal(p_statement);
}
pub proof fn w_statement_7<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_statement(s, i) is Some, !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), !((at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)), !((at(s, i).kind is DeclarationVar)), !((at(s, i).kind is DeclarationLet)), !((at(s, i).kind is DeclarationConst)), !((at(s, i).kind is Break)), (at(s, i).kind is Continue)
    ensures ({ let x = (p_statement(s, i)->0).0; wf_stmt(*x.item) })
    decreases rem(s, i), 28int, 0int
{
    u_statement_7(s, i);
    if plain(s, i + 1) {
        if asi(at(s, (i + 1))) is NoSemicolon {
            if let Some((l, j21)) = p_ident(s, i + 1) {
                
                if let Some((u, j22)) = p_semi(s, j21) {
                    
                    if j22 >= i + 1 {
                        let l = Some(l);
                        assert({ let x: StatementNode<'a> = nd(Statement::Continue(ContinueStatement { label: l })); wf_stmt(*x.item) });
                    }
                }
            }
        }
        else {
            if let Some((u, j23)) = p_semi(s, i + 1) {
                
                if j23 >= i + 1 {
                    let l = None;
                    assert({ let x: StatementNode<'a> = nd(Statement::Continue(ContinueStatement { label: l })); wf_stmt(*x.item) });
                }
            }
        }
    }
}
/// p_statement, one step
pub proof fn u_statement_8<'a>(s: Seq<Tok<'a>>, i: int)
    requires !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), !((at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)), !((at(s, i).kind is DeclarationVar)), !((at(s, i).kind is DeclarationLet)), !((at(s, i).kind is DeclarationConst)), !((at(s, i).kind is Break)), !((at(s, i).kind is Continue)), (at(s, i).kind is Return)
    ensures p_statement(s, i) == ({
        if plain(s, i + 1) {
            match ({
                if asi(at(s, (i + 1))) is NoSemicolon {
                    match p_expr(s, i + 1, -1, 0) {
                        Some((e, j32)) => {
                            match p_semi(s, j32) {
                                Some((u, j33)) => {
                                    Some((Some(e), j33))
                                },
                                None => None,
                            }
                        },
                        None => None,
                    }
                }
                else {
                    match p_semi(s, i + 1) {
                        Some((u, j34)) => {
                            Some((None, j34))
                        },
                        None => None,
                    }
                }
            }) {
                Some((r, j31)) => {
                    Some((nd(Statement::Return(ReturnStatement { value: r })), j31))
                },
                None => None,
            }
        } else { None } })
{
    reveal(p_statement);
    reveal(p_expr);
}
pub proof fn w_statement_8<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_statement(s, i) is Some, !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), !((at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)), !((at(s, i).kind is DeclarationVar)), !((at(s, i).kind is DeclarationLet)), !((at(s, i).kind is DeclarationConst)), !((at(s, i).kind is Break)), !((at(s, i).kind is Continue)), (at(s, i).kind is Return)
    ensures ({ let x = (p_statement(s, i)->0).0; wf_stmt(*x.item) })
    decreases rem(s, i), 28int, 0int
{
    u_statement_8(s, i);
    if plain(s, i + 1) {
        if asi(at(s, (i + 1))) is NoSemicolon {
            if let Some((e, j28)) = p_expr(s, i + 1, -1, 0) {
                w_expr(s, i + 1, -1, 0);
                if let Some((u, j29)) = p_semi(s, j28) {
                    
                    if j29 >= i + 1 {
                        let r = Some(e);
                        assert({ let x: StatementNode<'a> = nd(Statement::Return(ReturnStatement { value: r })); wf_stmt(*x.item) });
                    }
                }
            }
        }
        else {
            if let Some((u, j30)) = p_semi(s, i + 1) {
                
                if j30 >= i + 1 {
                    let r = None;
                    assert({ let x: StatementNode<'a> = nd(Statement::Return(ReturnStatement { value: r })); wf_stmt(*x.item) });
                }
            }
        }
    }
}
/// p_statement, one step
pub proof fn u_statement_9<'a>(s: Seq<Tok<'a>>, i: int)
    requires !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), !((at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)), !((at(s, i).kind is DeclarationVar)), !((at(s, i).kind is DeclarationLet)), !((at(s, i).kind is DeclarationConst)), !((at(s, i).kind is Break)), !((at(s, i).kind is Continue)), !((at(s, i).kind is Return)), (at(s, i).kind is Throw)
    ensures p_statement(s, i) == ({
        if plain(s, i + 1) {
            match p_expr(s, i + 1, -1, 0) {
                Some((e, j37)) => {
                    match p_semi(s, j37) {
                        Some((u, j38)) => {
                            Some((nd(Statement::Throw(ThrowStatement { value: e })), j38))
                        },
                        None => None,
                    }
                },
                None => None,
            }
        } else { None } })
{
    reveal(p_statement);
    reveal(p_expr);
}
pub proof fn w_statement_9<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_statement(s, i) is Some, !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), !((at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)), !((at(s, i).kind is DeclarationVar)), !((at(s, i).kind is DeclarationLet)), !((at(s, i).kind is DeclarationConst)), !((at(s, i).kind is Break)), !((at(s, i).kind is Continue)), !((at(s, i).kind is Return)), (at(s, i).kind is Throw)
    ensures ({ let x = (p_statement(s, i)->0).0; wf_stmt(*x.item) })
    decreases rem(s, i), 28int, 0int
{
    u_statement_9(s, i);
    if plain(s, i + 1) {
        if let Some((e, j35)) = p_expr(s, i + 1, -1, 0) {
            w_expr(s, i + 1, -1, 0);
            if let Some((u, j36)) = p_semi(s, j35) {
                
                assert({ let x: StatementNode<'a> = nd(Statement::Throw(ThrowStatement { value: e })); wf_stmt(*x.item) });
            }
        }
    }
}
/// p_statement, one step
pub proof fn u_statement_10<'a>(s: Seq<Tok<'a>>, i: int)
    requires !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), !((at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)), !((at(s, i).kind is DeclarationVar)), !((at(s, i).kind is DeclarationLet)), !((at(s, i).kind is DeclarationConst)), !((at(s, i).kind is Break)), !((at(s, i).kind is Continue)), !((at(s, i).kind is Return)), !((at(s, i).kind is Throw)), (at(s, i).kind is Function)
    ensures p_statement(s, i) == ({
        if plain(s, i + 1) {
            match p_function_mandatory(s, i + 1) {
                Some((f, j40)) => {
                    Some((nd(Statement::Function(f)), j40))
                },
                None => None,
            }
        } else { None } })
{
    reveal(p_statement);
    reveal(p_function_mandatory);
}
pub proof fn w_statement_10<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_statement(s, i) is Some, !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), !((at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)), !((at(s, i).kind is DeclarationVar)), !((at(s, i).kind is DeclarationLet)), !((at(s, i).kind is DeclarationConst)), !((at(s, i).kind is Break)), !((at(s, i).kind is Continue)), !((at(s, i).kind is Return)), !((at(s, i).kind is Throw)), (at(s, i).kind is Function)
    ensures ({ let x = (p_statement(s, i)->0).0; wf_stmt(*x.item) })
    decreases rem(s, i), 28int, 0int
{
    u_statement_10(s, i);
    if plain(s, i + 1) {
        if let Some((f, j39)) = p_function_mandatory(s, i + 1) {
            w_function_mandatory(s, i + 1);
            assert({ let x: StatementNode<'a> = nd(Statement::Function(f)); wf_stmt(*x.item) });
        }
    }
}
}
pub use vx_wf1::*;
pub mod vx_wf2 {
use super::*;
/// p_statement, one step
pub proof fn u_statement_11<'a>(s: Seq<Tok<'a>>, i: int)
    requires !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), !((at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)), !((at(s, i).kind is DeclarationVar)), !((at(s, i).kind is DeclarationLet)), !((at(s, i).kind is DeclarationConst)), !((at(s, i).kind is Break)), !((at(s, i).kind is Continue)), !((at(s, i).kind is Return)), !((at(s, i).kind is Throw)), !((at(s, i).kind is Function)), (at(s, i).kind is Class)
    ensures p_statement(s, i) == ({
        if plain(s, i + 1) {
            match p_class_mandatory(s, i + 1) {
                Some((f, j42)) => {
                    Some((nd(Statement::Class(f)), j42))
                },
                None => None,
            }
        } else { None } })
{
    reveal(p_statement);
    reveal(p_class_mandatory);
}
pub proof fn w_statement_11<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_statement(s, i) is Some, !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), !((at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)), !((at(s, i).kind is DeclarationVar)), !((at(s, i).kind is DeclarationLet)), !((at(s, i).kind is DeclarationConst)), !((at(s, i).kind is Break)), !((at(s, i).kind is Continue)), !((at(s, i).kind is Return)), !((at(s, i).kind is Throw)), !((at(s, i).kind is Function)), (at(s, i).kind is Class)
    ensures ({ let x = (p_statement(s, i)->0).0; wf_stmt(*x.item) })
    decreases rem(s, i), 28int, 0int
{
    u_statement_11(s, i);
    if plain(s, i + 1) {
        if let Some((f, j41)) = p_class_mandatory(s, i + 1) {
            w_class_mandatory(s, i + 1);
            assert({ let x: StatementNode<'a> = nd(Statement::Class(f)); wf_stmt(*x.item) });
        }
    }
}
/// p_statement, one step
pub proof fn u_statement_12<'a>(s: Seq<Tok<'a>>, i: int)
    requires !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), !((at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)), !((at(s, i).kind is DeclarationVar)), !((at(s, i).kind is DeclarationLet)), !((at(s, i).kind is DeclarationConst)), !((at(s, i).kind is Break)), !((at(s, i).kind is Continue)), !((at(s, i).kind is Return)), !((at(s, i).kind is Throw)), !((at(s, i).kind is Function)), !((at(s, i).kind is Class)), (at(s, i).kind is If)
    ensures p_statement(s, i) == ({
        {
            if !(at(s, i).kind is EndOfProgram) && plain(s, i + 1) {
                if at(s, i + 1).kind is ParenOpen && plain(s, i + 2) {
                    match p_expr(s, i + 2, -1, 0) {
                        Some((e, j47)) => if j47 >= i + 2 {
                            if at(s, j47).kind is ParenClose && plain(s, j47 + 1) {
                                match p_statement(s, j47 + 1) {
                                    Some((a, j48)) => if j48 >= j47 + 1 {
                                        if (at(s, j48).kind is Else) {
                                            if plain(s, j48 + 1) {
                                                match p_statement(s, j48 + 1) {
                                                    Some((b, j49)) => {
                                                        Some((nd(Statement::If(IfStatement { test: e, consequent: a, alternate: Some(b) })), j49))
                                                    },
                                                    None => None,
                                                }
                                            } else { None }
                                        }
                                        else {
                                            Some((nd(Statement::If(IfStatement { test: e, consequent: a, alternate: None })), j48))
                                        }
                                    } else { None },
                                    None => None,
                                }
                            } else { None }
                        } else { None },
                        None => None,
                    }
                } else { None }
            } else { None }
        } })
{
    reveal(p_statement);
    reveal(p_expr);
}
pub proof fn w_statement_12<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_statement(s, i) is Some, !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), !((at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)), !((at(s, i).kind is DeclarationVar)), !((at(s, i).kind is DeclarationLet)), !((at(s, i).kind is DeclarationConst)), !((at(s, i).kind is Break)), !((at(s, i).kind is Continue)), !((at(s, i).kind is Return)), !((at(s, i).kind is Throw)), !((at(s, i).kind is Function)), !((at(s, i).kind is Class)), (at(s, i).kind is If)
    ensures ({ let x = (p_statement(s, i)->0).0; wf_stmt(*x.item) })
    decreases rem(s, i), 28int, 0int
{
    u_statement_12(s, i);
    if !(at(s, i).kind is EndOfProgram) && plain(s, i + 1) {
        if at(s, i + 1).kind is ParenOpen && plain(s, i + 2) {
            if let Some((e, j43)) = p_expr(s, i + 2, -1, 0) {
                if j43 >= i + 2 {
                    w_expr(s, i + 2, -1, 0);
                    if at(s, j43).kind is ParenClose && plain(s, j43 + 1) {
                        if let Some((a, j44)) = p_statement(s, j43 + 1) {
                            if j44 >= j43 + 1 {
                                w_statement(s, j43 + 1);
                                if (at(s, j44).kind is Else) {
                                    if plain(s, j44 + 1) {
                                        if let Some((b, j45)) = p_statement(s, j44 + 1) {
                                            w_statement(s, j44 + 1);
                                            assert({ let x: StatementNode<'a> = nd(Statement::If(IfStatement { test: e, consequent: a, alternate: Some(b) })); wf_stmt(*x.item) });
                                        }
                                    }
                                }
                                else {
                                    assert({ let x: StatementNode<'a> = nd(Statement::If(IfStatement { test: e, consequent: a, alternate: None })); wf_stmt(*x.item) });
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}
/// p_statement, one step
pub proof fn u_statement_13<'a>(s: Seq<Tok<'a>>, i: int)
    requires !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), !((at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)), !((at(s, i).kind is DeclarationVar)), !((at(s, i).kind is DeclarationLet)), !((at(s, i).kind is DeclarationConst)), !((at(s, i).kind is Break)), !((at(s, i).kind is Continue)), !((at(s, i).kind is Return)), !((at(s, i).kind is Throw)), !((at(s, i).kind is Function)), !((at(s, i).kind is Class)), !((at(s, i).kind is If)), (at(s, i).kind is While)
    ensures p_statement(s, i) == ({
        if plain(s, i + 1) {
            if at(s, i + 1).kind is ParenOpen && plain(s, i + 2) {
                match p_expr(s, i + 2, -1, 0) {
                    Some((e, j52)) => if j52 >= i + 2 {
                        if at(s, j52).kind is ParenClose && plain(s, j52 + 1) {
                            match p_statement(s, j52 + 1) {
                                Some((b, j53)) => {
                                    Some((nd(Statement::While(WhileStatement { test: e, body: b })), j53))
                                },
                                None => None,
                            }
                        } else { None }
                    } else { None },
                    None => None,
                }
            } else { None }
        } else { None } })
{
    reveal(p_statement);
    reveal(p_expr);
}
pub proof fn w_statement_13<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_statement(s, i) is Some, !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), !((at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)), !((at(s, i).kind is DeclarationVar)), !((at(s, i).kind is DeclarationLet)), !((at(s, i).kind is DeclarationConst)), !((at(s, i).kind is Break)), !((at(s, i).kind is Continue)), !((at(s, i).kind is Return)), !((at(s, i).kind is Throw)), !((at(s, i).kind is Function)), !((at(s, i).kind is Class)), !((at(s, i).kind is If)), (at(s, i).kind is While)
    ensures ({ let x = (p_statement(s, i)->0).0; wf_stmt(*x.item) })
    decreases rem(s, i), 28int, 0int
{
    u_statement_13(s, i);
    if plain(s, i + 1) {
        if at(s, i + 1).kind is ParenOpen && plain(s, i + 2) {
            if let Some((e, j50)) = p_expr(s, i + 2, -1, 0) {
                if j50 >= i + 2 {
                    w_expr(s, i + 2, -1, 0);
                    if at(s, j50).kind is ParenClose && plain(s, j50 + 1) {
                        if let Some((b, j51)) = p_statement(s, j50 + 1) {
                            w_statement(s, j50 + 1);
                            assert({ let x: StatementNode<'a> = nd(Statement::While(WhileStatement { test: e, body: b })); wf_stmt(*x.item) });
                        }
                    }
                }
            }
        }
    }
}
/// p_statement, one step
pub proof fn u_statement_14<'a>(s: Seq<Tok<'a>>, i: int)
    requires !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), !((at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)), !((at(s, i).kind is DeclarationVar)), !((at(s, i).kind is DeclarationLet)), !((at(s, i).kind is DeclarationConst)), !((at(s, i).kind is Break)), !((at(s, i).kind is Continue)), !((at(s, i).kind is Return)), !((at(s, i).kind is Throw)), !((at(s, i).kind is Function)), !((at(s, i).kind is Class)), !((at(s, i).kind is If)), !((at(s, i).kind is While)), (at(s, i).kind is Do)
    ensures p_statement(s, i) == ({
        {
            if !(at(s, i).kind is EndOfProgram) && plain(s, i + 1) {
                match p_statement(s, i + 1) {
                    Some((b, j57)) => if j57 >= i + 1 {
                        if at(s, j57).kind is While && plain(s, j57 + 1) {
                            if at(s, j57 + 1).kind is ParenOpen && plain(s, j57 + 2) {
                                match p_expr(s, j57 + 2, -1, 0) {
                                    Some((e, j58)) => {
                                        if at(s, j58).kind is ParenClose && plain(s, j58 + 1) {
                                            if (at(s, j58 + 1).kind is Semicolon) {
                                                if plain(s, j58 + 2) {
                                                    Some((nd(Statement::Do(DoStatement { body: b, test: e })), j58 + 2))
                                                } else { None }
                                            }
                                            else {
                                                Some((nd(Statement::Do(DoStatement { body: b, test: e })), j58 + 1))
                                            }
                                        } else { None }
                                    },
                                    None => None,
                                }
                            } else { None }
                        } else { None }
                    } else { None },
                    None => None,
                }
            } else { None }
        } })
{
    reveal(p_statement);
    reveal(p_expr);
}
pub proof fn w_statement_14<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_statement(s, i) is Some, !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), !((at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)), !((at(s, i).kind is DeclarationVar)), !((at(s, i).kind is DeclarationLet)), !((at(s, i).kind is DeclarationConst)), !((at(s, i).kind is Break)), !((at(s, i).kind is Continue)), !((at(s, i).kind is Return)), !((at(s, i).kind is Throw)), !((at(s, i).kind is Function)), !((at(s, i).kind is Class)), !((at(s, i).kind is If)), !((at(s, i).kind is While)), (at(s, i).kind is Do)
    ensures ({ let x = (p_statement(s, i)->0).0; wf_stmt(*x.item) })
    decreases rem(s, i), 28int, 0int
{
    u_statement_14(s, i);
    if !(at(s, i).kind is EndOfProgram) && plain(s, i + 1) {
        if let Some((b, j54)) = p_statement(s, i + 1) {
            if j54 >= i + 1 {
                w_statement(s, i + 1);
                if at(s, j54).kind is While && plain(s, j54 + 1) {
                    if at(s, j54 + 1).kind is ParenOpen && plain(s, j54 + 2) {
                        if let Some((e, j55)) = p_expr(s, j54 + 2, -1, 0) {
                            w_expr(s, j54 + 2, -1, 0);
                            if at(s, j55).kind is ParenClose && plain(s, j55 + 1) {
                                if (at(s, j55 + 1).kind is Semicolon) {
                                    if plain(s, j55 + 2) {
                                        assert({ let x: StatementNode<'a> = nd(Statement::Do(DoStatement { body: b, test: e })); wf_stmt(*x.item) });
                                    }
                                }
                                else {
                                    assert({ let x: StatementNode<'a> = nd(Statement::Do(DoStatement { body: b, test: e })); wf_stmt(*x.item) });
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}
}
pub use vx_wf2::*;
pub mod vx_wf3 {
use super::*;
/// p_statement, one step
pub proof fn u_statement_15<'a>(s: Seq<Tok<'a>>, i: int)
    requires !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), !((at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)), !((at(s, i).kind is DeclarationVar)), !((at(s, i).kind is DeclarationLet)), !((at(s, i).kind is DeclarationConst)), !((at(s, i).kind is Break)), !((at(s, i).kind is Continue)), !((at(s, i).kind is Return)), !((at(s, i).kind is Throw)), !((at(s, i).kind is Function)), !((at(s, i).kind is Class)), !((at(s, i).kind is If)), !((at(s, i).kind is While)), !((at(s, i).kind is Do)), (at(s, i).kind is For)
    ensures p_statement(s, i) == ({
        {
            if !(at(s, i).kind is EndOfProgram) && plain(s, i + 1) {
                if at(s, i + 1).kind is ParenOpen && plain(s, i + 2) {
                    if (at(s, i + 2).kind is Semicolon) {
                        if plain(s, i + 3) {
                            {
                                let (init) = (None);
                                match ({
                                    if (at(s, i + 3).kind is Semicolon) {
                                        if plain(s, i + 4) {
                                            Some((None, i + 4))
                                        } else { None }
                                    }
                                    else {
                                        match p_expr(s, i + 3, -1, 0) {
                                            Some((e, j119)) => {
                                                if at(s, j119).kind is Semicolon && plain(s, j119 + 1) {
                                                    Some((Some(e), j119 + 1))
                                                } else { None }
                                            },
                                            None => None,
                                        }
                                    }
                                }) {
                                    Some((t, j118)) => if j118 >= i + 3 {
                                        match ({
                                            if (at(s, j118).kind is ParenClose) {
                                                if plain(s, j118 + 1) {
                                                    Some((None, j118 + 1))
                                                } else { None }
                                            }
                                            else {
                                                match p_expr(s, j118, -1, 0) {
                                                    Some((e, j121)) => {
                                                        if at(s, j121).kind is ParenClose && plain(s, j121 + 1) {
                                                            Some((Some(e), j121 + 1))
                                                        } else { None }
                                                    },
                                                    None => None,
                                                }
                                            }
                                        }) {
                                            Some((u, j120)) => if j120 >= j118 {
                                                match p_statement(s, j120) {
                                                    Some((b, j122)) => {
                                                        Some((nd(Statement::For(ForStatement { init, test: t, update: u, body: b })), j122))
                                                    },
                                                    None => None,
                                                }
                                            } else { None },
                                            None => None,
                                        }
                                    } else { None },
                                    None => None,
                                }
                            }
                        } else { None }
                    }
                    else {
                        match ({
                            if (at(s, i + 2).kind is DeclarationVar) {
                                p_for_init(s, i + 2, DeclarationKind::Var)
                            }
                            else if (at(s, i + 2).kind is DeclarationLet) {
                                p_for_init(s, i + 2, DeclarationKind::Let)
                            }
                            else if (at(s, i + 2).kind is DeclarationConst) {
                                p_for_init(s, i + 2, DeclarationKind::Const)
                            }
                            else {
                                match p_expr(s, i + 2, 110, 0) {
                                    Some((x, j127)) => if j127 >= i + 2 {
                                        if (at(s, j127).kind is OperatorIn) {
                                            Some((nd(ForInit::Expression(x)), j127))
                                        }
                                        else {
                                            match p_tail(s, j127, x, -1) {
                                                Some((y, j128)) => {
                                                    Some((nd(ForInit::Expression(y)), j128))
                                                },
                                                None => None,
                                            }
                                        }
                                    } else { None },
                                    None => None,
                                }
                            }
                        }) {
                            Some((x, j123)) => if j123 >= i + 2 {
                                {
                                    let (init) = (x);
                                    if (at(s, j123).kind is OperatorIn) {
                                        if plain(s, j123 + 1) {
                                            p_for_in(s, j123 + 1, init)
                                        } else { None }
                                    }
                                    else if (at(s, j123).kind is Identifier) && at(s, j123).text == lit(26223) {
                                        if plain(s, j123 + 1) {
                                            p_for_of(s, j123 + 1, init)
                                        } else { None }
                                    }
                                    else {
                                        if at(s, j123).kind is Semicolon && plain(s, j123 + 1) {
                                            {
                                                let (init) = (Some(init));
                                                match ({
                                                    if (at(s, j123 + 1).kind is Semicolon) {
                                                        if plain(s, j123 + 2) {
                                                            Some((None, j123 + 2))
                                                        } else { None }
                                                    }
                                                    else {
                                                        match p_expr(s, j123 + 1, -1, 0) {
                                                            Some((e, j134)) => {
                                                                if at(s, j134).kind is Semicolon && plain(s, j134 + 1) {
                                                                    Some((Some(e), j134 + 1))
                                                                } else { None }
                                                            },
                                                            None => None,
                                                        }
                                                    }
                                                }) {
                                                    Some((t, j133)) => if j133 >= j123 + 1 {
                                                        match ({
                                                            if (at(s, j133).kind is ParenClose) {
                                                                if plain(s, j133 + 1) {
                                                                    Some((None, j133 + 1))
                                                                } else { None }
                                                            }
                                                            else {
                                                                match p_expr(s, j133, -1, 0) {
                                                                    Some((e, j136)) => {
                                                                        if at(s, j136).kind is ParenClose && plain(s, j136 + 1) {
                                                                            Some((Some(e), j136 + 1))
                                                                        } else { None }
                                                                    },
                                                                    None => None,
                                                                }
                                                            }
                                                        }) {
                                                            Some((u, j135)) => if j135 >= j133 {
                                                                match p_statement(s, j135) {
                                                                    Some((b, j137)) => {
                                                                        Some((nd(Statement::For(ForStatement { init, test: t, update: u, body: b })), j137))
                                                                    },
                                                                    None => None,
                                                                }
                                                            } else { None },
                                                            None => None,
                                                        }
                                                    } else { None },
                                                    None => None,
                                                }
                                            }
                                        } else { None }
                                    }
                                }
                            } else { None },
                            None => None,
                        }
                    }
                } else { None }
            } else { None }
        } })
{
    reveal(p_statement);
    reveal(p_expr);
    reveal(p_for_init);
    reveal(p_tail);
    reveal(p_for_in);
    reveal(p_for_of);
}
}
pub use vx_wf3::*;
pub mod vx_wf4 {
use super::*;
pub proof fn w_statement_15<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_statement(s, i) is Some, !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), !((at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)), !((at(s, i).kind is DeclarationVar)), !((at(s, i).kind is DeclarationLet)), !((at(s, i).kind is DeclarationConst)), !((at(s, i).kind is Break)), !((at(s, i).kind is Continue)), !((at(s, i).kind is Return)), !((at(s, i).kind is Throw)), !((at(s, i).kind is Function)), !((at(s, i).kind is Class)), !((at(s, i).kind is If)), !((at(s, i).kind is While)), !((at(s, i).kind is Do)), (at(s, i).kind is For)
    ensures ({ let x = (p_statement(s, i)->0).0; wf_stmt(*x.item) })
    decreases rem(s, i), 28int, 0int
{
    u_statement_15(s, i);
    if !(at(s, i).kind is EndOfProgram) && plain(s, i + 1) {
        if at(s, i + 1).kind is ParenOpen && plain(s, i + 2) {
            if (at(s, i + 2).kind is Semicolon) {
                if plain(s, i + 3) {
                    let (init) = (None);
                    if (at(s, i + 3).kind is Semicolon) {
                        if plain(s, i + 4) {
                            if i + 4 >= i + 3 {
                                let t = None;
                                if (at(s, i + 4).kind is ParenClose) {
                                    if plain(s, i + 5) {
                                        if i + 5 >= i + 4 {
                                            let u = None;
                                            if let Some((b, j59)) = p_statement(s, i + 5) {
                                                w_statement(s, i + 5);
                                                assert({ let x: StatementNode<'a> = nd(Statement::For(ForStatement { init, test: t, update: u, body: b })); wf_stmt(*x.item) });
                                            }
                                        }
                                    }
                                }
                                else {
                                    if let Some((e, j60)) = p_expr(s, i + 4, -1, 0) {
                                        w_expr(s, i + 4, -1, 0);
                                        if at(s, j60).kind is ParenClose && plain(s, j60 + 1) {
                                            if j60 + 1 >= i + 4 {
                                                let u = Some(e);
                                                if let Some((b, j61)) = p_statement(s, j60 + 1) {
                                                    w_statement(s, j60 + 1);
                                                    assert({ let x: StatementNode<'a> = nd(Statement::For(ForStatement { init, test: t, update: u, body: b })); wf_stmt(*x.item) });
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                    else {
                        if let Some((e, j62)) = p_expr(s, i + 3, -1, 0) {
                            w_expr(s, i + 3, -1, 0);
                            if at(s, j62).kind is Semicolon && plain(s, j62 + 1) {
                                if j62 + 1 >= i + 3 {
                                    let t = Some(e);
                                    if (at(s, j62 + 1).kind is ParenClose) {
                                        if plain(s, j62 + 2) {
                                            if j62 + 2 >= j62 + 1 {
                                                let u = None;
                                                if let Some((b, j63)) = p_statement(s, j62 + 2) {
                                                    w_statement(s, j62 + 2);
                                                    assert({ let x: StatementNode<'a> = nd(Statement::For(ForStatement { init, test: t, update: u, body: b })); wf_stmt(*x.item) });
                                                }
                                            }
                                        }
                                    }
                                    else {
                                        if let Some((e, j64)) = p_expr(s, j62 + 1, -1, 0) {
                                            w_expr(s, j62 + 1, -1, 0);
                                            if at(s, j64).kind is ParenClose && plain(s, j64 + 1) {
                                                if j64 + 1 >= j62 + 1 {
                                                    let u = Some(e);
                                                    if let Some((b, j65)) = p_statement(s, j64 + 1) {
                                                        w_statement(s, j64 + 1);
                                                        assert({ let x: StatementNode<'a> = nd(Statement::For(ForStatement { init, test: t, update: u, body: b })); wf_stmt(*x.item) });
                                                    }
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
            else {
                if (at(s, i + 2).kind is DeclarationVar) {
                    if let Some((x, j66)) = p_for_init(s, i + 2, DeclarationKind::Var) {
                        w_for_init(s, i + 2, DeclarationKind::Var);
                        if j66 >= i + 2 {
                            let x = x;
                            let (init) = (x);
                            if (at(s, j66).kind is OperatorIn) {
                                if plain(s, j66 + 1) {
                                    if p_for_in(s, j66 + 1, init) is Some { w_for_in(s, j66 + 1, init); assert({ let x: StatementNode<'a> = (p_for_in(s, j66 + 1, init)->0).0; wf_stmt(*x.item) }); }
                                }
                            }
                            else if (at(s, j66).kind is Identifier) && at(s, j66).text == lit(26223) {
                                if plain(s, j66 + 1) {
                                    if p_for_of(s, j66 + 1, init) is Some { w_for_of(s, j66 + 1, init); assert({ let x: StatementNode<'a> = (p_for_of(s, j66 + 1, init)->0).0; wf_stmt(*x.item) }); }
                                }
                            }
                            else {
                                if at(s, j66).kind is Semicolon && plain(s, j66 + 1) {
                                    let (init) = (Some(init));
                                    if (at(s, j66 + 1).kind is Semicolon) {
                                        if plain(s, j66 + 2) {
                                            if j66 + 2 >= j66 + 1 {
                                                let t = None;
                                                if (at(s, j66 + 2).kind is ParenClose) {
                                                    if plain(s, j66 + 3) {
                                                        if j66 + 3 >= j66 + 2 {
                                                            let u = None;
                                                            if let Some((b, j69)) = p_statement(s, j66 + 3) {
                                                                w_statement(s, j66 + 3);
                                                                assert({ let x: StatementNode<'a> = nd(Statement::For(ForStatement { init, test: t, update: u, body: b })); wf_stmt(*x.item) });
                                                            }
                                                        }
                                                    }
                                                }
                                                else {
                                                    if let Some((e, j70)) = p_expr(s, j66 + 2, -1, 0) {
                                                        w_expr(s, j66 + 2, -1, 0);
                                                        if at(s, j70).kind is ParenClose && plain(s, j70 + 1) {
                                                            if j70 + 1 >= j66 + 2 {
                                                                let u = Some(e);
                                                                if let Some((b, j71)) = p_statement(s, j70 + 1) {
                                                                    w_statement(s, j70 + 1);
                                                                    assert({ let x: StatementNode<'a> = nd(Statement::For(ForStatement { init, test: t, update: u, body: b })); wf_stmt(*x.item) });
                                                                }
                                                            }
                                                        }
                                                    }
                                                }
                                            }
                                        }
                                    }
                                    else {
                                        if let Some((e, j72)) = p_expr(s, j66 + 1, -1, 0) {
                                            w_expr(s, j66 + 1, -1, 0);
                                            if at(s, j72).kind is Semicolon && plain(s, j72 + 1) {
                                                if j72 + 1 >= j66 + 1 {
                                                    let t = Some(e);
                                                    if (at(s, j72 + 1).kind is ParenClose) {
                                                        if plain(s, j72 + 2) {
                                                            if j72 + 2 >= j72 + 1 {
                                                                let u = None;
                                                                if let Some((b, j73)) = p_statement(s, j72 + 2) {
                                                                    w_statement(s, j72 + 2);
                                                                    assert({ let x: StatementNode<'a> = nd(Statement::For(ForStatement { init, test: t, update: u, body: b })); wf_stmt(*x.item) });
                                                                }
                                                            }
                                                        }
                                                    }
                                                    else {
                                                        if let Some((e, j74)) = p_expr(s, j72 + 1, -1, 0) {
                                                            w_expr(s, j72 + 1, -1, 0);
                                                            if at(s, j74).kind is ParenClose && plain(s, j74 + 1) {
                                                                if j74 + 1 >= j72 + 1 {
                                                                    let u = Some(e);
                                                                    if let Some((b, j75)) = p_statement(s, j74 + 1) {
                                                                        w_statement(s, j74 + 1);
                                                                        assert({ let x: StatementNode<'a> = nd(Statement::For(ForStatement { init, test: t, update: u, body: b })); wf_stmt(*x.item) });
                                                                    }
                                                                }
                                                            }
                                                        }
                                                    }
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                else if (at(s, i + 2).kind is DeclarationLet) {
                    if let Some((x, j76)) = p_for_init(s, i + 2, DeclarationKind::Let) {
                        w_for_init(s, i + 2, DeclarationKind::Let);
                        if j76 >= i + 2 {
                            let x = x;
                            let (init) = (x);
                            if (at(s, j76).kind is OperatorIn) {
                                if plain(s, j76 + 1) {
                                    if p_for_in(s, j76 + 1, init) is Some { w_for_in(s, j76 + 1, init); assert({ let x: StatementNode<'a> = (p_for_in(s, j76 + 1, init)->0).0; wf_stmt(*x.item) }); }
                                }
                            }
                            else if (at(s, j76).kind is Identifier) && at(s, j76).text == lit(26223) {
                                if plain(s, j76 + 1) {
                                    if p_for_of(s, j76 + 1, init) is Some { w_for_of(s, j76 + 1, init); assert({ let x: StatementNode<'a> = (p_for_of(s, j76 + 1, init)->0).0; wf_stmt(*x.item) }); }
                                }
                            }
                            else {
                                if at(s, j76).kind is Semicolon && plain(s, j76 + 1) {
                                    let (init) = (Some(init));
                                    if (at(s, j76 + 1).kind is Semicolon) {
                                        if plain(s, j76 + 2) {
                                            if j76 + 2 >= j76 + 1 {
                                                let t = None;
                                                if (at(s, j76 + 2).kind is ParenClose) {
                                                    if plain(s, j76 + 3) {
                                                        if j76 + 3 >= j76 + 2 {
                                                            let u = None;
                                                            if let Some((b, j79)) = p_statement(s, j76 + 3) {
                                                                w_statement(s, j76 + 3);
                                                                assert({ let x: StatementNode<'a> = nd(Statement::For(ForStatement { init, test: t, update: u, body: b })); wf_stmt(*x.item) });
                                                            }
                                                        }
                                                    }
                                                }
                                                else {
                                                    if let Some((e, j80)) = p_expr(s, j76 + 2, -1, 0) {
                                                        w_expr(s, j76 + 2, -1, 0);
                                                        if at(s, j80).kind is ParenClose && plain(s, j80 + 1) {
                                                            if j80 + 1 >= j76 + 2 {
                                                                let u = Some(e);
                                                                if let Some((b, j81)) = p_statement(s, j80 + 1) {
                                                                    w_statement(s, j80 + 1);
                                                                    assert({ let x: StatementNode<'a> = nd(Statement::For(ForStatement { init, test: t, update: u, body: b })); wf_stmt(*x.item) });
                                                                }
                                                            }
                                                        }
                                                    }
                                                }
                                            }
                                        }
                                    }
                                    else {
                                        if let Some((e, j82)) = p_expr(s, j76 + 1, -1, 0) {
                                            w_expr(s, j76 + 1, -1, 0);
                                            if at(s, j82).kind is Semicolon && plain(s, j82 + 1) {
                                                if j82 + 1 >= j76 + 1 {
                                                    let t = Some(e);
                                                    if (at(s, j82 + 1).kind is ParenClose) {
                                                        if plain(s, j82 + 2) {
                                                            if j82 + 2 >= j82 + 1 {
                                                                let u = None;
                                                                if let Some((b, j83)) = p_statement(s, j82 + 2) {
                                                                    w_statement(s, j82 + 2);
                                                                    assert({ let x: StatementNode<'a> = nd(Statement::For(ForStatement { init, test: t, update: u, body: b })); wf_stmt(*x.item) });
                                                                }
                                                            }
                                                        }
                                                    }
                                                    else {
                                                        if let Some((e, j84)) = p_expr(s, j82 + 1, -1, 0) {
                                                            w_expr(s, j82 + 1, -1, 0);
                                                            if at(s, j84).kind is ParenClose && plain(s, j84 + 1) {
                                                                if j84 + 1 >= j82 + 1 {
                                                                    let u = Some(e);
                                                                    if let Some((b, j85)) = p_statement(s, j84 + 1) {
                                                                        w_statement(s, j84 + 1);
                                                                        assert({ let x: StatementNode<'a> = nd(Statement::For(ForStatement { init, test: t, update: u, body: b })); wf_stmt(*x.item) });
                                                                    }
                                                                }
                                                            }
                                                        }
                                                    }
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                else if (at(s, i + 2).kind is DeclarationConst) {
                    if let Some((x, j86)) = p_for_init(s, i + 2, DeclarationKind::Const) {
                        w_for_init(s, i + 2, DeclarationKind::Const);
                        if j86 >= i + 2 {
                            let x = x;
                            let (init) = (x);
                            if (at(s, j86).kind is OperatorIn) {
                                if plain(s, j86 + 1) {
                                    if p_for_in(s, j86 + 1, init) is Some { w_for_in(s, j86 + 1, init); assert({ let x: StatementNode<'a> = (p_for_in(s, j86 + 1, init)->0).0; wf_stmt(*x.item) }); }
                                }
                            }
                            else if (at(s, j86).kind is Identifier) && at(s, j86).text == lit(26223) {
                                if plain(s, j86 + 1) {
                                    if p_for_of(s, j86 + 1, init) is Some { w_for_of(s, j86 + 1, init); assert({ let x: StatementNode<'a> = (p_for_of(s, j86 + 1, init)->0).0; wf_stmt(*x.item) }); }
                                }
                            }
                            else {
                                if at(s, j86).kind is Semicolon && plain(s, j86 + 1) {
                                    let (init) = (Some(init));
                                    if (at(s, j86 + 1).kind is Semicolon) {
                                        if plain(s, j86 + 2) {
                                            if j86 + 2 >= j86 + 1 {
                                                let t = None;
                                                if (at(s, j86 + 2).kind is ParenClose) {
                                                    if plain(s, j86 + 3) {
                                                        if j86 + 3 >= j86 + 2 {
                                                            let u = None;
                                                            if let Some((b, j89)) = p_statement(s, j86 + 3) {
                                                                w_statement(s, j86 + 3);
                                                                assert({ let x: StatementNode<'a> = nd(Statement::For(ForStatement { init, test: t, update: u, body: b })); wf_stmt(*x.item) });
                                                            }
                                                        }
                                                    }
                                                }
                                                else {
                                                    if let Some((e, j90)) = p_expr(s, j86 + 2, -1, 0) {
                                                        w_expr(s, j86 + 2, -1, 0);
                                                        if at(s, j90).kind is ParenClose && plain(s, j90 + 1) {
                                                            if j90 + 1 >= j86 + 2 {
                                                                let u = Some(e);
                                                                if let Some((b, j91)) = p_statement(s, j90 + 1) {
                                                                    w_statement(s, j90 + 1);
                                                                    assert({ let x: StatementNode<'a> = nd(Statement::For(ForStatement { init, test: t, update: u, body: b })); wf_stmt(*x.item) });
                                                                }
                                                            }
                                                        }
                                                    }
                                                }
                                            }
                                        }
                                    }
                                    else {
                                        if let Some((e, j92)) = p_expr(s, j86 + 1, -1, 0) {
                                            w_expr(s, j86 + 1, -1, 0);
                                            if at(s, j92).kind is Semicolon && plain(s, j92 + 1) {
                                                if j92 + 1 >= j86 + 1 {
                                                    let t = Some(e);
                                                    if (at(s, j92 + 1).kind is ParenClose) {
                                                        if plain(s, j92 + 2) {
                                                            if j92 + 2 >= j92 + 1 {
                                                                let u = None;
                                                                if let Some((b, j93)) = p_statement(s, j92 + 2) {
                                                                    w_statement(s, j92 + 2);
                                                                    assert({ let x: StatementNode<'a> = nd(Statement::For(ForStatement { init, test: t, update: u, body: b })); wf_stmt(*x.item) });
                                                                }
                                                            }
                                                        }
                                                    }
                                                    else {
                                                        if let Some((e, j94)) = p_expr(s, j92 + 1, -1, 0) {
                                                            w_expr(s, j92 + 1, -1, 0);
                                                            if at(s, j94).kind is ParenClose && plain(s, j94 + 1) {
                                                                if j94 + 1 >= j92 + 1 {
                                                                    let u = Some(e);
                                                                    if let Some((b, j95)) = p_statement(s, j94 + 1) {
                                                                        w_statement(s, j94 + 1);
                                                                        assert({ let x: StatementNode<'a> = nd(Statement::For(ForStatement { init, test: t, update: u, body: b })); wf_stmt(*x.item) });
                                                                    }
                                                                }
                                                            }
                                                        }
                                                    }
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                else {
                    if let Some((x, j96)) = p_expr(s, i + 2, 110, 0) {
                        if j96 >= i + 2 {
                            w_expr(s, i + 2, 110, 0);
                            if (at(s, j96).kind is OperatorIn) {
                                if j96 >= i + 2 {
                                    let x = nd(ForInit::Expression(x));  assert(wf_forinit(*x.item));
                                    let (init) = (x);
                                    if (at(s, j96).kind is OperatorIn) {
                                        if plain(s, j96 + 1) {
                                            if p_for_in(s, j96 + 1, init) is Some { w_for_in(s, j96 + 1, init); assert({ let x: StatementNode<'a> = (p_for_in(s, j96 + 1, init)->0).0; wf_stmt(*x.item) }); }
                                        }
                                    }
                                    else if (at(s, j96).kind is Identifier) && at(s, j96).text == lit(26223) {
                                        if plain(s, j96 + 1) {
                                            if p_for_of(s, j96 + 1, init) is Some { w_for_of(s, j96 + 1, init); assert({ let x: StatementNode<'a> = (p_for_of(s, j96 + 1, init)->0).0; wf_stmt(*x.item) }); }
                                        }
                                    }
                                    else {
                                        if at(s, j96).kind is Semicolon && plain(s, j96 + 1) {
                                            let (init) = (Some(init));
                                            if (at(s, j96 + 1).kind is Semicolon) {
                                                if plain(s, j96 + 2) {
                                                    if j96 + 2 >= j96 + 1 {
                                                        let t = None;
                                                        if (at(s, j96 + 2).kind is ParenClose) {
                                                            if plain(s, j96 + 3) {
                                                                if j96 + 3 >= j96 + 2 {
                                                                    let u = None;
                                                                    if let Some((b, j99)) = p_statement(s, j96 + 3) {
                                                                        w_statement(s, j96 + 3);
                                                                        assert({ let x: StatementNode<'a> = nd(Statement::For(ForStatement { init, test: t, update: u, body: b })); wf_stmt(*x.item) });
                                                                    }
                                                                }
                                                            }
                                                        }
                                                        else {
                                                            if let Some((e, j100)) = p_expr(s, j96 + 2, -1, 0) {
                                                                w_expr(s, j96 + 2, -1, 0);
                                                                if at(s, j100).kind is ParenClose && plain(s, j100 + 1) {
                                                                    if j100 + 1 >= j96 + 2 {
                                                                        let u = Some(e);
                                                                        if let Some((b, j101)) = p_statement(s, j100 + 1) {
                                                                            w_statement(s, j100 + 1);
                                                                            assert({ let x: StatementNode<'a> = nd(Statement::For(ForStatement { init, test: t, update: u, body: b })); wf_stmt(*x.item) });
                                                                        }
                                                                    }
                                                                }
                                                            }
                                                        }
                                                    }
                                                }
                                            }
                                            else {
                                                if let Some((e, j102)) = p_expr(s, j96 + 1, -1, 0) {
                                                    w_expr(s, j96 + 1, -1, 0);
                                                    if at(s, j102).kind is Semicolon && plain(s, j102 + 1) {
                                                        if j102 + 1 >= j96 + 1 {
                                                            let t = Some(e);
                                                            if (at(s, j102 + 1).kind is ParenClose) {
                                                                if plain(s, j102 + 2) {
                                                                    if j102 + 2 >= j102 + 1 {
                                                                        let u = None;
                                                                        if let Some((b, j103)) = p_statement(s, j102 + 2) {
                                                                            w_statement(s, j102 + 2);
                                                                            assert({ let x: StatementNode<'a> = nd(Statement::For(ForStatement { init, test: t, update: u, body: b })); wf_stmt(*x.item) });
                                                                        }
                                                                    }
                                                                }
                                                            }
                                                            else {
                                                                if let Some((e, j104)) = p_expr(s, j102 + 1, -1, 0) {
                                                                    w_expr(s, j102 + 1, -1, 0);
                                                                    if at(s, j104).kind is ParenClose && plain(s, j104 + 1) {
                                                                        if j104 + 1 >= j102 + 1 {
                                                                            let u = Some(e);
                                                                            if let Some((b, j105)) = p_statement(s, j104 + 1) {
                                                                                w_statement(s, j104 + 1);
                                                                                assert({ let x: StatementNode<'a> = nd(Statement::For(ForStatement { init, test: t, update: u, body: b })); wf_stmt(*x.item) });
                                                                            }
                                                                        }
                                                                    }
                                                                }
                                                            }
                                                        }
                                                    }
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                            else {
                                if let Some((y, j106)) = p_tail(s, j96, x, -1) {
                                    w_tail(s, j96, x, -1);
                                    if j106 >= i + 2 {
                                        let x = nd(ForInit::Expression(y));  assert(wf_forinit(*x.item));
                                        let (init) = (x);
                                        if (at(s, j106).kind is OperatorIn) {
                                            if plain(s, j106 + 1) {
                                                if p_for_in(s, j106 + 1, init) is Some { w_for_in(s, j106 + 1, init); assert({ let x: StatementNode<'a> = (p_for_in(s, j106 + 1, init)->0).0; wf_stmt(*x.item) }); }
                                            }
                                        }
                                        else if (at(s, j106).kind is Identifier) && at(s, j106).text == lit(26223) {
                                            if plain(s, j106 + 1) {
                                                if p_for_of(s, j106 + 1, init) is Some { w_for_of(s, j106 + 1, init); assert({ let x: StatementNode<'a> = (p_for_of(s, j106 + 1, init)->0).0; wf_stmt(*x.item) }); }
                                            }
                                        }
                                        else {
                                            if at(s, j106).kind is Semicolon && plain(s, j106 + 1) {
                                                let (init) = (Some(init));
                                                if (at(s, j106 + 1).kind is Semicolon) {
                                                    if plain(s, j106 + 2) {
                                                        if j106 + 2 >= j106 + 1 {
                                                            let t = None;
                                                            if (at(s, j106 + 2).kind is ParenClose) {
                                                                if plain(s, j106 + 3) {
                                                                    if j106 + 3 >= j106 + 2 {
                                                                        let u = None;
                                                                        if let Some((b, j109)) = p_statement(s, j106 + 3) {
                                                                            w_statement(s, j106 + 3);
                                                                            assert({ let x: StatementNode<'a> = nd(Statement::For(ForStatement { init, test: t, update: u, body: b })); wf_stmt(*x.item) });
                                                                        }
                                                                    }
                                                                }
                                                            }
                                                            else {
                                                                if let Some((e, j110)) = p_expr(s, j106 + 2, -1, 0) {
                                                                    w_expr(s, j106 + 2, -1, 0);
                                                                    if at(s, j110).kind is ParenClose && plain(s, j110 + 1) {
                                                                        if j110 + 1 >= j106 + 2 {
                                                                            let u = Some(e);
                                                                            if let Some((b, j111)) = p_statement(s, j110 + 1) {
                                                                                w_statement(s, j110 + 1);
                                                                                assert({ let x: StatementNode<'a> = nd(Statement::For(ForStatement { init, test: t, update: u, body: b })); wf_stmt(*x.item) });
                                                                            }
                                                                        }
                                                                    }
                                                                }
                                                            }
                                                        }
                                                    }
                                                }
                                                else {
                                                    if let Some((e, j112)) = p_expr(s, j106 + 1, -1, 0) {
                                                        w_expr(s, j106 + 1, -1, 0);
                                                        if at(s, j112).kind is Semicolon && plain(s, j112 + 1) {
                                                            if j112 + 1 >= j106 + 1 {
                                                                let t = Some(e);
                                                                if (at(s, j112 + 1).kind is ParenClose) {
                                                                    if plain(s, j112 + 2) {
                                                                        if j112 + 2 >= j112 + 1 {
                                                                            let u = None;
                                                                            if let Some((b, j113)) = p_statement(s, j112 + 2) {
                                                                                w_statement(s, j112 + 2);
                                                                                assert({ let x: StatementNode<'a> = nd(Statement::For(ForStatement { init, test: t, update: u, body: b })); wf_stmt(*x.item) });
                                                                            }
                                                                        }
                                                                    }
                                                                }
                                                                else {
                                                                    if let Some((e, j114)) = p_expr(s, j112 + 1, -1, 0) {
                                                                        w_expr(s, j112 + 1, -1, 0);
                                                                        if at(s, j114).kind is ParenClose && plain(s, j114 + 1) {
                                                                            if j114 + 1 >= j112 + 1 {
                                                                                let u = Some(e);
                                                                                if let Some((b, j115)) = p_statement(s, j114 + 1) {
                                                                                    w_statement(s, j114 + 1);
                                                                                    assert({ let x: StatementNode<'a> = nd(Statement::For(ForStatement { init, test: t, update: u, body: b })); wf_stmt(*x.item) });
                                                                                }
                                                                            }
                                                                        }
                                                                    }
                                                                }
                                                            }
                                                        }
                                                    }
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}
}
pub use vx_wf4::*;
pub mod vx_wf5 {
use super::*;
/// p_statement, one step
pub proof fn u_statement_16<'a>(s: Seq<Tok<'a>>, i: int)
    requires !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), !((at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)), !((at(s, i).kind is DeclarationVar)), !((at(s, i).kind is DeclarationLet)), !((at(s, i).kind is DeclarationConst)), !((at(s, i).kind is Break)), !((at(s, i).kind is Continue)), !((at(s, i).kind is Return)), !((at(s, i).kind is Throw)), !((at(s, i).kind is Function)), !((at(s, i).kind is Class)), !((at(s, i).kind is If)), !((at(s, i).kind is While)), !((at(s, i).kind is Do)), !((at(s, i).kind is For)), (at(s, i).kind is Switch)
    ensures p_statement(s, i) == ({
        if plain(s, i + 1) {
            if at(s, i + 1).kind is ParenOpen && plain(s, i + 2) {
                match p_expr(s, i + 2, -1, 0) {
                    Some((e, j140)) => if j140 >= i + 2 {
                        if at(s, j140).kind is ParenClose && plain(s, j140 + 1) {
                            match p_block_case(s, j140 + 1) {
                                Some((b, j141)) => {
                                    Some((nd(Statement::Switch(SwitchStatement { discriminant: e, cases: b })), j141))
                                },
                                None => None,
                            }
                        } else { None }
                    } else { None },
                    None => None,
                }
            } else { None }
        } else { None } })
{
    reveal(p_statement);
    reveal(p_expr);
    reveal(p_block_case);
}
pub proof fn w_statement_16<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_statement(s, i) is Some, !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), !((at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)), !((at(s, i).kind is DeclarationVar)), !((at(s, i).kind is DeclarationLet)), !((at(s, i).kind is DeclarationConst)), !((at(s, i).kind is Break)), !((at(s, i).kind is Continue)), !((at(s, i).kind is Return)), !((at(s, i).kind is Throw)), !((at(s, i).kind is Function)), !((at(s, i).kind is Class)), !((at(s, i).kind is If)), !((at(s, i).kind is While)), !((at(s, i).kind is Do)), !((at(s, i).kind is For)), (at(s, i).kind is Switch)
    ensures ({ let x = (p_statement(s, i)->0).0; wf_stmt(*x.item) })
    decreases rem(s, i), 28int, 0int
{
    u_statement_16(s, i);
    if plain(s, i + 1) {
        if at(s, i + 1).kind is ParenOpen && plain(s, i + 2) {
            if let Some((e, j138)) = p_expr(s, i + 2, -1, 0) {
                if j138 >= i + 2 {
                    w_expr(s, i + 2, -1, 0);
                    if at(s, j138).kind is ParenClose && plain(s, j138 + 1) {
                        if let Some((b, j139)) = p_block_case(s, j138 + 1) {
                            w_block_case(s, j138 + 1);
                            assert({ let x: StatementNode<'a> = nd(Statement::Switch(SwitchStatement { discriminant: e, cases: b })); wf_stmt(*x.item) });
                        }
                    }
                }
            }
        }
    }
}
/// p_statement, one step
pub proof fn u_statement_17<'a>(s: Seq<Tok<'a>>, i: int)
    requires !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), !((at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)), !((at(s, i).kind is DeclarationVar)), !((at(s, i).kind is DeclarationLet)), !((at(s, i).kind is DeclarationConst)), !((at(s, i).kind is Break)), !((at(s, i).kind is Continue)), !((at(s, i).kind is Return)), !((at(s, i).kind is Throw)), !((at(s, i).kind is Function)), !((at(s, i).kind is Class)), !((at(s, i).kind is If)), !((at(s, i).kind is While)), !((at(s, i).kind is Do)), !((at(s, i).kind is For)), !((at(s, i).kind is Switch)), (at(s, i).kind is Try)
    ensures p_statement(s, i) == ({
        {
            if !(at(s, i).kind is EndOfProgram) && plain(s, i + 1) {
                match p_block(s, i + 1) {
                    Some((b, j148)) => if j148 >= i + 1 {
                        if (at(s, j148).kind is Catch) {
                            if plain(s, j148 + 1) {
                                if at(s, j148 + 1).kind is ParenOpen && plain(s, j148 + 2) {
                                    match p_pattern(s, j148 + 2) {
                                        Some((p, j149)) => if j149 >= j148 + 2 {
                                            if at(s, j149).kind is ParenClose && plain(s, j149 + 1) {
                                                match p_block(s, j149 + 1) {
                                                    Some((c, j150)) => if j150 >= j149 + 1 {
                                                        let h = nd(CatchClause { param: p, body: c });
                                                        if (at(s, j150).kind is Finally) {
                                                            if plain(s, j150 + 1) {
                                                                match p_block(s, j150 + 1) {
                                                                    Some((f, j151)) => {
                                                                        Some((nd(Statement::Try(TryStatement { block: b, handler: Some(h), finalizer: Some(f) })), j151))
                                                                    },
                                                                    None => None,
                                                                }
                                                            } else { None }
                                                        }
                                                        else {
                                                            Some((nd(Statement::Try(TryStatement { block: b, handler: Some(h), finalizer: None })), j150))
                                                        }
                                                    } else { None },
                                                    None => None,
                                                }
                                            } else { None }
                                        } else { None },
                                        None => None,
                                    }
                                } else { None }
                            } else { None }
                        }
                        else if (at(s, j148).kind is Finally) {
                            if plain(s, j148 + 1) {
                                match p_block(s, j148 + 1) {
                                    Some((f, j152)) => {
                                        Some((nd(Statement::Try(TryStatement { block: b, handler: None, finalizer: Some(f) })), j152))
                                    },
                                    None => None,
                                }
                            } else { None }
                        }
                        else {
                            None
                        }
                    } else { None },
                    None => None,
                }
            } else { None }
        } })
{
    reveal(p_statement);
    reveal(p_block);
    reveal(p_pattern);
}
pub proof fn w_statement_17<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_statement(s, i) is Some, !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), !((at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)), !((at(s, i).kind is DeclarationVar)), !((at(s, i).kind is DeclarationLet)), !((at(s, i).kind is DeclarationConst)), !((at(s, i).kind is Break)), !((at(s, i).kind is Continue)), !((at(s, i).kind is Return)), !((at(s, i).kind is Throw)), !((at(s, i).kind is Function)), !((at(s, i).kind is Class)), !((at(s, i).kind is If)), !((at(s, i).kind is While)), !((at(s, i).kind is Do)), !((at(s, i).kind is For)), !((at(s, i).kind is Switch)), (at(s, i).kind is Try)
    ensures ({ let x = (p_statement(s, i)->0).0; wf_stmt(*x.item) })
    decreases rem(s, i), 28int, 0int
{
    u_statement_17(s, i);
    if !(at(s, i).kind is EndOfProgram) && plain(s, i + 1) {
        if let Some((b, j142)) = p_block(s, i + 1) {
            if j142 >= i + 1 {
                w_block(s, i + 1);
                if (at(s, j142).kind is Catch) {
                    if plain(s, j142 + 1) {
                        if at(s, j142 + 1).kind is ParenOpen && plain(s, j142 + 2) {
                            if let Some((p, j143)) = p_pattern(s, j142 + 2) {
                                if j143 >= j142 + 2 {
                                    w_pattern(s, j142 + 2);
                                    if at(s, j143).kind is ParenClose && plain(s, j143 + 1) {
                                        if let Some((c, j144)) = p_block(s, j143 + 1) {
                                            if j144 >= j143 + 1 {
                                                w_block(s, j143 + 1);
                                                let h = nd(CatchClause { param: p, body: c });
                                                assert(wf_catch(*h.item));
                                                if (at(s, j144).kind is Finally) {
                                                    if plain(s, j144 + 1) {
                                                        if let Some((f, j145)) = p_block(s, j144 + 1) {
                                                            w_block(s, j144 + 1);
                                                            assert({ let x: StatementNode<'a> = nd(Statement::Try(TryStatement { block: b, handler: Some(h), finalizer: Some(f) })); wf_stmt(*x.item) });
                                                        }
                                                    }
                                                }
                                                else {
                                                    assert({ let x: StatementNode<'a> = nd(Statement::Try(TryStatement { block: b, handler: Some(h), finalizer: None })); wf_stmt(*x.item) });
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                else if (at(s, j142).kind is Finally) {
                    if plain(s, j142 + 1) {
                        if let Some((f, j146)) = p_block(s, j142 + 1) {
                            w_block(s, j142 + 1);
                            assert({ let x: StatementNode<'a> = nd(Statement::Try(TryStatement { block: b, handler: None, finalizer: Some(f) })); wf_stmt(*x.item) });
                        }
                    }
                }
                else {
                }
            }
        }
    }
}
/// p_statement, one step
pub proof fn u_statement_18<'a>(s: Seq<Tok<'a>>, i: int)
    requires !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), !((at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)), !((at(s, i).kind is DeclarationVar)), !((at(s, i).kind is DeclarationLet)), !((at(s, i).kind is DeclarationConst)), !((at(s, i).kind is Break)), !((at(s, i).kind is Continue)), !((at(s, i).kind is Return)), !((at(s, i).kind is Throw)), !((at(s, i).kind is Function)), !((at(s, i).kind is Class)), !((at(s, i).kind is If)), !((at(s, i).kind is While)), !((at(s, i).kind is Do)), !((at(s, i).kind is For)), !((at(s, i).kind is Switch)), !((at(s, i).kind is Try)), (at(s, i).kind is Identifier)
    ensures p_statement(s, i) == ({
        {
            let label = at(s, i).text;
            if !(at(s, i).kind is EndOfProgram) && plain(s, i + 1) {
                if (at(s, i + 1).kind is Colon) {
                    if plain(s, i + 2) {
                        match p_statement(s, i + 2) {
                            Some((b, j157)) => {
                                Some((nd(Statement::Labeled(LabeledStatement { label, body: b })), j157))
                            },
                            None => None,
                        }
                    } else { None }
                }
                else {
                    match p_tail(s, i + 1, nd(Expression::Identifier(label)), -1) {
                        Some((r, j158)) => {
                            match p_semi(s, j158) {
                                Some((u, j159)) => {
                                    Some((nd(Statement::Expression(r)), j159))
                                },
                                None => None,
                            }
                        },
                        None => None,
                    }
                }
            } else { None }
        } })
{
    reveal(p_statement);
    reveal(p_tail);
}
pub proof fn w_statement_18<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_statement(s, i) is Some, !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), !((at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)), !((at(s, i).kind is DeclarationVar)), !((at(s, i).kind is DeclarationLet)), !((at(s, i).kind is DeclarationConst)), !((at(s, i).kind is Break)), !((at(s, i).kind is Continue)), !((at(s, i).kind is Return)), !((at(s, i).kind is Throw)), !((at(s, i).kind is Function)), !((at(s, i).kind is Class)), !((at(s, i).kind is If)), !((at(s, i).kind is While)), !((at(s, i).kind is Do)), !((at(s, i).kind is For)), !((at(s, i).kind is Switch)), !((at(s, i).kind is Try)), (at(s, i).kind is Identifier)
    ensures ({ let x = (p_statement(s, i)->0).0; wf_stmt(*x.item) })
    decreases rem(s, i), 28int, 0int
{
    u_statement_18(s, i);
    let label = at(s, i).text;
    if !(at(s, i).kind is EndOfProgram) && plain(s, i + 1) {
        if (at(s, i + 1).kind is Colon) {
            if plain(s, i + 2) {
                if let Some((b, j153)) = p_statement(s, i + 2) {
                    w_statement(s, i + 2);
                    assert({ let x: StatementNode<'a> = nd(Statement::Labeled(LabeledStatement { label, body: b })); wf_stmt(*x.item) });
                }
            }
        }
        else {
            if let Some((r, j154)) = p_tail(s, i + 1, nd(Expression::Identifier(label)), -1) {
                w_tail(s, i + 1, nd(Expression::Identifier(label)), -1);
                if let Some((u, j155)) = p_semi(s, j154) {
                    
                    assert({ let x: StatementNode<'a> = nd(Statement::Expression(r)); wf_stmt(*x.item) });
                }
            }
        }
    }
}
}
pub use vx_wf5::*;
pub mod vx_wf6 {
use super::*;
/// p_statement, one step
pub proof fn u_statement_19<'a>(s: Seq<Tok<'a>>, i: int)
    requires !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), !((at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)), !((at(s, i).kind is DeclarationVar)), !((at(s, i).kind is DeclarationLet)), !((at(s, i).kind is DeclarationConst)), !((at(s, i).kind is Break)), !((at(s, i).kind is Continue)), !((at(s, i).kind is Return)), !((at(s, i).kind is Throw)), !((at(s, i).kind is Function)), !((at(s, i).kind is Class)), !((at(s, i).kind is If)), !((at(s, i).kind is While)), !((at(s, i).kind is Do)), !((at(s, i).kind is For)), !((at(s, i).kind is Switch)), !((at(s, i).kind is Try)), !((at(s, i).kind is Identifier)), (at(s, i).kind is Import)
    ensures p_statement(s, i) == ({
        {
            let name = at(s, i).text;
            if !(at(s, i).kind is EndOfProgram) && plain(s, i + 1) {
                if (at(s, i + 1).kind is Comma || at(s, i + 1).kind is ParenOpen) {
                    match p_tail(s, i + 1, nd(Expression::Identifier(name)), -1) {
                        Some((r, j169)) => {
                            match p_semi(s, j169) {
                                Some((u, j170)) => {
                                    Some((nd(Statement::Expression(r)), j170))
                                },
                                None => None,
                            }
                        },
                        None => None,
                    }
                }
                else if (at(s, i + 1).kind is LiteralString) {
                    let source = unquote(at(s, i + 1).text);
                    if plain(s, i + 2) {
                        match p_semi(s, i + 2) {
                            Some((u, j171)) => {
                                Some((nd(Statement::Import(ImportDeclaration { specifiers: lst(Seq::empty()), source })), j171))
                            },
                            None => None,
                        }
                    } else { None }
                }
                else if (at(s, i + 1).kind is Identifier) {
                    let d = nd(ForImportSpecifier::ImportDefaultSpecifier(ImportDefaultSpecifier { local: nd(at(s, i + 1).text) }));
                    if plain(s, i + 2) {
                        if (at(s, i + 2).kind is Comma) {
                            if plain(s, i + 3) {
                                {
                                    let (acc) = (Seq::empty().push(d));
                                    if (at(s, i + 3).kind is BraceOpen) {
                                        if plain(s, i + 4) {
                                            p_import_names(s, i + 4, acc)
                                        } else { None }
                                    }
                                    else if (at(s, i + 3).kind is OperatorMultiplication) {
                                        if plain(s, i + 4) {
                                            if (at(s, i + 4).kind is Identifier) && at(s, i + 4).text == lit(29537) {
                                                if plain(s, i + 5) {
                                                    let d = nd(ForImportSpecifier::ImportNamespaceSpecifier(ImportNamespaceSpecifier { local: nd(at(s, i + 5).text) }));
                                                    if at(s, i + 5).kind is Identifier && plain(s, i + 6) {
                                                        p_import_from(s, i + 6, acc.push(d))
                                                    } else { None }
                                                } else { None }
                                            } else { None }
                                        } else { None }
                                    }
                                    else {
                                        None
                                    }
                                }
                            } else { None }
                        }
                        else {
                            p_import_from(s, i + 2, Seq::empty().push(d))
                        }
                    } else { None }
                }
                else {
                    {
                        let (acc) = (Seq::empty());
                        if (at(s, i + 1).kind is BraceOpen) {
                            if plain(s, i + 2) {
                                p_import_names(s, i + 2, acc)
                            } else { None }
                        }
                        else if (at(s, i + 1).kind is OperatorMultiplication) {
                            if plain(s, i + 2) {
                                if (at(s, i + 2).kind is Identifier) && at(s, i + 2).text == lit(29537) {
                                    if plain(s, i + 3) {
                                        let d = nd(ForImportSpecifier::ImportNamespaceSpecifier(ImportNamespaceSpecifier { local: nd(at(s, i + 3).text) }));
                                        if at(s, i + 3).kind is Identifier && plain(s, i + 4) {
                                            p_import_from(s, i + 4, acc.push(d))
                                        } else { None }
                                    } else { None }
                                } else { None }
                            } else { None }
                        }
                        else {
                            None
                        }
                    }
                }
            } else { None }
        } })
{
    reveal(p_statement);
    reveal(p_tail);
    reveal(p_import_names);
    reveal(p_import_from);
}
pub proof fn w_statement_19<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_statement(s, i) is Some, !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), !((at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)), !((at(s, i).kind is DeclarationVar)), !((at(s, i).kind is DeclarationLet)), !((at(s, i).kind is DeclarationConst)), !((at(s, i).kind is Break)), !((at(s, i).kind is Continue)), !((at(s, i).kind is Return)), !((at(s, i).kind is Throw)), !((at(s, i).kind is Function)), !((at(s, i).kind is Class)), !((at(s, i).kind is If)), !((at(s, i).kind is While)), !((at(s, i).kind is Do)), !((at(s, i).kind is For)), !((at(s, i).kind is Switch)), !((at(s, i).kind is Try)), !((at(s, i).kind is Identifier)), (at(s, i).kind is Import)
    ensures ({ let x = (p_statement(s, i)->0).0; wf_stmt(*x.item) })
    decreases rem(s, i), 28int, 0int
{
    u_statement_19(s, i);
    let name = at(s, i).text;
    if !(at(s, i).kind is EndOfProgram) && plain(s, i + 1) {
        if (at(s, i + 1).kind is Comma || at(s, i + 1).kind is ParenOpen) {
            if let Some((r, j160)) = p_tail(s, i + 1, nd(Expression::Identifier(name)), -1) {
                w_tail(s, i + 1, nd(Expression::Identifier(name)), -1);
                if let Some((u, j161)) = p_semi(s, j160) {
                    
                    assert({ let x: StatementNode<'a> = nd(Statement::Expression(r)); wf_stmt(*x.item) });
                }
            }
        }
        else if (at(s, i + 1).kind is LiteralString) {
            let source = unquote(at(s, i + 1).text);
            if plain(s, i + 2) {
                if let Some((u, j162)) = p_semi(s, i + 2) {
                    
                    assert({ let x: StatementNode<'a> = nd(Statement::Import(ImportDeclaration { specifiers: lst(Seq::empty()), source })); wf_stmt(*x.item) });
                }
            }
        }
        else if (at(s, i + 1).kind is Identifier) {
            let d = nd(ForImportSpecifier::ImportDefaultSpecifier(ImportDefaultSpecifier { local: nd(at(s, i + 1).text) }));
            if plain(s, i + 2) {
                if (at(s, i + 2).kind is Comma) {
                    if plain(s, i + 3) {
                        let (acc) = (Seq::empty().push(d));
                        if (at(s, i + 3).kind is BraceOpen) {
                            if plain(s, i + 4) {
                                if p_import_names(s, i + 4, acc) is Some { w_import_names(s, i + 4, acc); assert({ let x: StatementNode<'a> = (p_import_names(s, i + 4, acc)->0).0; wf_stmt(*x.item) }); }
                            }
                        }
                        else if (at(s, i + 3).kind is OperatorMultiplication) {
                            if plain(s, i + 4) {
                                if (at(s, i + 4).kind is Identifier) && at(s, i + 4).text == lit(29537) {
                                    if plain(s, i + 5) {
                                        let d = nd(ForImportSpecifier::ImportNamespaceSpecifier(ImportNamespaceSpecifier { local: nd(at(s, i + 5).text) }));
                                        if at(s, i + 5).kind is Identifier && plain(s, i + 6) {
                                            if p_import_from(s, i + 6, acc.push(d)) is Some { w_import_from(s, i + 6, acc.push(d)); assert({ let x: StatementNode<'a> = (p_import_from(s, i + 6, acc.push(d))->0).0; wf_stmt(*x.item) }); }
                                        }
                                    }
                                }
                            }
                        }
                        else {
                        }
                    }
                }
                else {
                    if p_import_from(s, i + 2, Seq::empty().push(d)) is Some { w_import_from(s, i + 2, Seq::empty().push(d)); assert({ let x: StatementNode<'a> = (p_import_from(s, i + 2, Seq::empty().push(d))->0).0; wf_stmt(*x.item) }); }
                }
            }
        }
        else {
            let (acc) = (Seq::empty());
            if (at(s, i + 1).kind is BraceOpen) {
                if plain(s, i + 2) {
                    if p_import_names(s, i + 2, acc) is Some { w_import_names(s, i + 2, acc); assert({ let x: StatementNode<'a> = (p_import_names(s, i + 2, acc)->0).0; wf_stmt(*x.item) }); }
                }
            }
            else if (at(s, i + 1).kind is OperatorMultiplication) {
                if plain(s, i + 2) {
                    if (at(s, i + 2).kind is Identifier) && at(s, i + 2).text == lit(29537) {
                        if plain(s, i + 3) {
                            let d = nd(ForImportSpecifier::ImportNamespaceSpecifier(ImportNamespaceSpecifier { local: nd(at(s, i + 3).text) }));
                            if at(s, i + 3).kind is Identifier && plain(s, i + 4) {
                                if p_import_from(s, i + 4, acc.push(d)) is Some { w_import_from(s, i + 4, acc.push(d)); assert({ let x: StatementNode<'a> = (p_import_from(s, i + 4, acc.push(d))->0).0; wf_stmt(*x.item) }); }
                            }
                        }
                    }
                }
            }
            else {
            }
        }
    }
}
/// p_statement, one step
pub proof fn u_statement_20<'a>(s: Seq<Tok<'a>>, i: int)
    requires !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), !((at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)), !((at(s, i).kind is DeclarationVar)), !((at(s, i).kind is DeclarationLet)), !((at(s, i).kind is DeclarationConst)), !((at(s, i).kind is Break)), !((at(s, i).kind is Continue)), !((at(s, i).kind is Return)), !((at(s, i).kind is Throw)), !((at(s, i).kind is Function)), !((at(s, i).kind is Class)), !((at(s, i).kind is If)), !((at(s, i).kind is While)), !((at(s, i).kind is Do)), !((at(s, i).kind is For)), !((at(s, i).kind is Switch)), !((at(s, i).kind is Try)), !((at(s, i).kind is Identifier)), !((at(s, i).kind is Import)), (at(s, i).kind is Debugger)
    ensures p_statement(s, i) == ({
        if plain(s, i + 1) {
            match p_semi(s, i + 1) {
                Some((u, j180)) => {
                    Some((nd(Statement::Debugger), j180))
                },
                None => None,
            }
        } else { None } })
{
    reveal(p_statement);
}
pub proof fn w_statement_20<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_statement(s, i) is Some, !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), !((at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)), !((at(s, i).kind is DeclarationVar)), !((at(s, i).kind is DeclarationLet)), !((at(s, i).kind is DeclarationConst)), !((at(s, i).kind is Break)), !((at(s, i).kind is Continue)), !((at(s, i).kind is Return)), !((at(s, i).kind is Throw)), !((at(s, i).kind is Function)), !((at(s, i).kind is Class)), !((at(s, i).kind is If)), !((at(s, i).kind is While)), !((at(s, i).kind is Do)), !((at(s, i).kind is For)), !((at(s, i).kind is Switch)), !((at(s, i).kind is Try)), !((at(s, i).kind is Identifier)), !((at(s, i).kind is Import)), (at(s, i).kind is Debugger)
    ensures ({ let x = (p_statement(s, i)->0).0; wf_stmt(*x.item) })
    decreases rem(s, i), 28int, 0int
{
    u_statement_20(s, i);
    if plain(s, i + 1) {
        if let Some((u, j179)) = p_semi(s, i + 1) {
            
            assert({ let x: StatementNode<'a> = nd(Statement::Debugger); wf_stmt(*x.item) });
        }
    }
}
/// p_statement, one step
pub proof fn u_statement_21<'a>(s: Seq<Tok<'a>>, i: int)
    requires !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), !((at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)), !((at(s, i).kind is DeclarationVar)), !((at(s, i).kind is DeclarationLet)), !((at(s, i).kind is DeclarationConst)), !((at(s, i).kind is Break)), !((at(s, i).kind is Continue)), !((at(s, i).kind is Return)), !((at(s, i).kind is Throw)), !((at(s, i).kind is Function)), !((at(s, i).kind is Class)), !((at(s, i).kind is If)), !((at(s, i).kind is While)), !((at(s, i).kind is Do)), !((at(s, i).kind is For)), !((at(s, i).kind is Switch)), !((at(s, i).kind is Try)), !((at(s, i).kind is Identifier)), !((at(s, i).kind is Import)), !((at(s, i).kind is Debugger))
    ensures p_statement(s, i) == ({
        None })
{
    reveal(p_statement);
}
pub proof fn w_statement_21<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_statement(s, i) is Some, !((at(s, i).kind is Semicolon)), !((at(s, i).kind is BraceOpen)), !((at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind)), !((at(s, i).kind is DeclarationVar)), !((at(s, i).kind is DeclarationLet)), !((at(s, i).kind is DeclarationConst)), !((at(s, i).kind is Break)), !((at(s, i).kind is Continue)), !((at(s, i).kind is Return)), !((at(s, i).kind is Throw)), !((at(s, i).kind is Function)), !((at(s, i).kind is Class)), !((at(s, i).kind is If)), !((at(s, i).kind is While)), !((at(s, i).kind is Do)), !((at(s, i).kind is For)), !((at(s, i).kind is Switch)), !((at(s, i).kind is Try)), !((at(s, i).kind is Identifier)), !((at(s, i).kind is Import)), !((at(s, i).kind is Debugger))
    ensures ({ let x = (p_statement(s, i)->0).0; wf_stmt(*x.item) })
    decreases rem(s, i), 28int, 0int
{
    u_statement_21(s, i);
}
pub proof fn w_statement<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_statement(s, i) is Some
    ensures ({ let x = (p_statement(s, i)->0).0; wf_stmt(*x.item) })
    decreases rem(s, i), 28int, 1int
{
    if (at(s, i).kind is Semicolon) { w_statement_0(s, i); }
    else if (at(s, i).kind is BraceOpen) { w_statement_1(s, i); }
    else if (at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind) { w_statement_2(s, i); }
    else if (at(s, i).kind is DeclarationVar) { w_statement_3(s, i); }
    else if (at(s, i).kind is DeclarationLet) { w_statement_4(s, i); }
    else if (at(s, i).kind is DeclarationConst) { w_statement_5(s, i); }
    else if (at(s, i).kind is Break) { w_statement_6(s, i); }
    else if (at(s, i).kind is Continue) { w_statement_7(s, i); }
    else if (at(s, i).kind is Return) { w_statement_8(s, i); }
    else if (at(s, i).kind is Throw) { w_statement_9(s, i); }
    else if (at(s, i).kind is Function) { w_statement_10(s, i); }
    else if (at(s, i).kind is Class) { w_statement_11(s, i); }
    else if (at(s, i).kind is If) { w_statement_12(s, i); }
    else if (at(s, i).kind is While) { w_statement_13(s, i); }
    else if (at(s, i).kind is Do) { w_statement_14(s, i); }
    else if (at(s, i).kind is For) { w_statement_15(s, i); }
    else if (at(s, i).kind is Switch) { w_statement_16(s, i); }
    else if (at(s, i).kind is Try) { w_statement_17(s, i); }
    else if (at(s, i).kind is Identifier) { w_statement_18(s, i); }
    else if (at(s, i).kind is Import) { w_statement_19(s, i); }
    else if (at(s, i).kind is Debugger) { w_statement_20(s, i); }
    else { w_statement_21(s, i); }
}
/// p_variable, one step
pub proof fn u_variable<'a>(s: Seq<Tok<'a>>, i: int, kind: DeclarationKind)
    ensures p_variable(s, i, kind) == ({
        if !(at(s, i).kind is EndOfProgram) && plain(s, i + 1) {
            match p_declarators(s, i + 1) {
                Some((d, j3)) => {
                    match p_semi(s, j3) {
                        Some((u, j4)) => {
                            Some((nd(Statement::Declaration(DeclarationStatement { kind, declarators: d })), j4))
                        },
                        None => None,
                    }
                },
                None => None,
            }
        } else { None } })
{
    reveal(p_variable);
    reveal(p_declarators);
}
}
pub use vx_wf6::*;
pub mod vx_wf7 {
use super::*;
pub proof fn w_variable<'a>(s: Seq<Tok<'a>>, i: int, kind: DeclarationKind)
    requires lexed(s), p_variable(s, i, kind) is Some
    ensures ({ let x = (p_variable(s, i, kind)->0).0; wf_stmt(*x.item) })
    decreases rem(s, i), 26int, 0int
{
    u_variable(s, i, kind);
    if !(at(s, i).kind is EndOfProgram) && plain(s, i + 1) {
        if let Some((d, j1)) = p_declarators(s, i + 1) {
            w_declarators(s, i + 1);
            if let Some((u, j2)) = p_semi(s, j1) {
                
                assert(wf_declaration(DeclarationStatement { kind, declarators: d }));
                assert({ let x: StatementNode<'a> = nd(Statement::Declaration(DeclarationStatement { kind, declarators: d })); wf_stmt(*x.item) });
            }
        }
    }
}
/// p_declarators, one step
pub proof fn u_declarators<'a>(s: Seq<Tok<'a>>, i: int)
    ensures p_declarators(s, i) == ({
        p_declarators_more(s, i, Seq::empty()) })
{
    reveal(p_declarators);
    reveal(p_declarators_more);
}
pub proof fn w_declarators<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_declarators(s, i) is Some
    ensures ({ let x = (p_declarators(s, i)->0).0; (forall|k: int| 0 <= k < x.q@.len() ==> wf_declr(*(#[trigger] x.q@[k]).item)) })
    decreases rem(s, i), 25int, 0int
{
    u_declarators(s, i);
    if p_declarators_more(s, i, Seq::empty()) is Some { w_declarators_more(s, i, Seq::empty()); assert({ let x: NodeList<'a, Declarator<'a>> = (p_declarators_more(s, i, Seq::empty())->0).0; (forall|k: int| 0 <= k < x.q@.len() ==> wf_declr(*(#[trigger] x.q@[k]).item)) }); }
}
/// p_declarators_more, one step
pub proof fn u_declarators_more<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<Node<'a, Declarator<'a>>>)
    ensures p_declarators_more(s, i, acc) == ({
        match p_declarator(s, i) {
            Some((d, j3)) => if j3 >= i {
                if (at(s, j3).kind is Comma) {
                    if plain(s, j3 + 1) {
                        p_declarators_more(s, j3 + 1, acc.push(d))
                    } else { None }
                }
                else {
                    Some((lst(acc.push(d)), j3))
                }
            } else { None },
            None => None,
        } })
{
    reveal(p_declarators_more);
    reveal(p_declarator);
}
pub proof fn w_declarators_more<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<Node<'a, Declarator<'a>>>)
    requires lexed(s), p_declarators_more(s, i, acc) is Some, (forall|k: int| 0 <= k < acc.len() ==> wf_declr(*(#[trigger] acc[k]).item))
    ensures ({ let x = (p_declarators_more(s, i, acc)->0).0; (forall|k: int| 0 <= k < x.q@.len() ==> wf_declr(*(#[trigger] x.q@[k]).item)) })
    decreases rem(s, i), 24int, 0int
{
    u_declarators_more(s, i, acc);
    if let Some((d, j1)) = p_declarator(s, i) {
        if j1 >= i {
            w_declarator(s, i);
            if (at(s, j1).kind is Comma) {
                if plain(s, j1 + 1) {
                    if p_declarators_more(s, j1 + 1, acc.push(d)) is Some { w_declarators_more(s, j1 + 1, acc.push(d)); assert({ let x: NodeList<'a, Declarator<'a>> = (p_declarators_more(s, j1 + 1, acc.push(d))->0).0; (forall|k: int| 0 <= k < x.q@.len() ==> wf_declr(*(#[trigger] x.q@[k]).item)) }); }
                }
            }
            else {
                assert({ let x: NodeList<'a, Declarator<'a>> = lst(acc.push(d)); (forall|k: int| 0 <= k < x.q@.len() ==> wf_declr(*(#[trigger] x.q@[k]).item)) });
            }
        }
    }
}
/// p_declarator, one step
pub proof fn u_declarator<'a>(s: Seq<Tok<'a>>, i: int)
    ensures p_declarator(s, i) == ({
        match p_pattern(s, i) {
            Some((id, j3)) => if j3 >= i {
                if (at(s, j3).kind is OperatorAssign) {
                    if plain(s, j3 + 1) {
                        match p_expr(s, j3 + 1, 0, 0) {
                            Some((e, j4)) => {
                                Some((nd(Declarator { id, init: Some(e) }), j4))
                            },
                            None => None,
                        }
                    } else { None }
                }
                else {
                    Some((nd(Declarator { id, init: None }), j3))
                }
            } else { None },
            None => None,
        } })
{
    reveal(p_declarator);
    reveal(p_pattern);
    reveal(p_expr);
}
pub proof fn w_declarator<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_declarator(s, i) is Some
    ensures ({ let x = (p_declarator(s, i)->0).0; wf_declr(*x.item) })
    decreases rem(s, i), 23int, 0int
{
    u_declarator(s, i);
    if let Some((id, j1)) = p_pattern(s, i) {
        if j1 >= i {
            w_pattern(s, i);
            if (at(s, j1).kind is OperatorAssign) {
                if plain(s, j1 + 1) {
                    if let Some((e, j2)) = p_expr(s, j1 + 1, 0, 0) {
                        w_expr(s, j1 + 1, 0, 0);
                        assert({ let x: Node<'a, Declarator<'a>> = nd(Declarator { id, init: Some(e) }); wf_declr(*x.item) });
                    }
                }
            }
            else {
                assert({ let x: Node<'a, Declarator<'a>> = nd(Declarator { id, init: None }); wf_declr(*x.item) });
            }
        }
    }
}
/// p_for_init, one step
pub proof fn u_for_init<'a>(s: Seq<Tok<'a>>, i: int, kind: DeclarationKind)
    ensures p_for_init(s, i, kind) == ({
        if !(at(s, i).kind is EndOfProgram) && plain(s, i + 1) {
            match p_declarators(s, i + 1) {
                Some((d, j2)) => {
                    Some((nd(ForInit::Declaration(DeclarationStatement { kind, declarators: d })), j2))
                },
                None => None,
            }
        } else { None } })
{
    reveal(p_for_init);
    reveal(p_declarators);
}
pub proof fn w_for_init<'a>(s: Seq<Tok<'a>>, i: int, kind: DeclarationKind)
    requires lexed(s), p_for_init(s, i, kind) is Some
    ensures ({ let x = (p_for_init(s, i, kind)->0).0; wf_forinit(*x.item) })
    decreases rem(s, i), 26int, 0int
{
    u_for_init(s, i, kind);
    if !(at(s, i).kind is EndOfProgram) && plain(s, i + 1) {
        if let Some((d, j1)) = p_declarators(s, i + 1) {
            w_declarators(s, i + 1);
            assert(wf_declaration(DeclarationStatement { kind, declarators: d }));
            assert({ let x: Node<'a, ForInit<'a>> = nd(ForInit::Declaration(DeclarationStatement { kind, declarators: d })); wf_forinit(*x.item) });
        }
    }
}
/// p_for_in, one step
pub proof fn u_for_in<'a>(s: Seq<Tok<'a>>, i: int, left: Node<'a, ForInit<'a>>)
    ensures p_for_in(s, i, left) == ({
        match p_expr(s, i, -1, 0) {
            Some((e, j3)) => if j3 >= i {
                if at(s, j3).kind is ParenClose && plain(s, j3 + 1) {
                    match p_statement(s, j3 + 1) {
                        Some((b, j4)) => {
                            Some((nd(Statement::ForIn(ForInStatement { left, right: e, body: b })), j4))
                        },
                        None => None,
                    }
                } else { None }
            } else { None },
            None => None,
        } })
{
    reveal(p_for_in);
    reveal(p_expr);
    reveal(p_statement);
}
pub proof fn w_for_in<'a>(s: Seq<Tok<'a>>, i: int, left: Node<'a, ForInit<'a>>)
    requires lexed(s), p_for_in(s, i, left) is Some, wf_forinit(*left.item)
    ensures ({ let x = (p_for_in(s, i, left)->0).0; wf_stmt(*x.item) })
    decreases rem(s, i), 29int, 0int
{
    u_for_in(s, i, left);
    if let Some((e, j1)) = p_expr(s, i, -1, 0) {
        if j1 >= i {
            w_expr(s, i, -1, 0);
            if at(s, j1).kind is ParenClose && plain(s, j1 + 1) {
                if let Some((b, j2)) = p_statement(s, j1 + 1) {
                    w_statement(s, j1 + 1);
                    assert({ let x: StatementNode<'a> = nd(Statement::ForIn(ForInStatement { left, right: e, body: b })); wf_stmt(*x.item) });
                }
            }
        }
    }
}
/// p_for_of, one step
pub proof fn u_for_of<'a>(s: Seq<Tok<'a>>, i: int, left: Node<'a, ForInit<'a>>)
    ensures p_for_of(s, i, left) == ({
        match p_expr(s, i, -1, 0) {
            Some((e, j3)) => if j3 >= i {
                if at(s, j3).kind is ParenClose && plain(s, j3 + 1) {
                    match p_statement(s, j3 + 1) {
                        Some((b, j4)) => {
                            Some((nd(Statement::ForOf(ForOfStatement { left, right: e, body: b })), j4))
                        },
                        None => None,
                    }
                } else { None }
            } else { None },
            None => None,
        } })
{
    reveal(p_for_of);
    reveal(p_expr);
    reveal(p_statement);
}
pub proof fn w_for_of<'a>(s: Seq<Tok<'a>>, i: int, left: Node<'a, ForInit<'a>>)
    requires lexed(s), p_for_of(s, i, left) is Some, wf_forinit(*left.item)
    ensures ({ let x = (p_for_of(s, i, left)->0).0; wf_stmt(*x.item) })
    decreases rem(s, i), 29int, 0int
{
    u_for_of(s, i, left);
    if let Some((e, j1)) = p_expr(s, i, -1, 0) {
        if j1 >= i {
            w_expr(s, i, -1, 0);
            if at(s, j1).kind is ParenClose && plain(s, j1 + 1) {
                if let Some((b, j2)) = p_statement(s, j1 + 1) {
                    w_statement(s, j1 + 1);
                    assert({ let x: StatementNode<'a> = nd(Statement::ForOf(ForOfStatement { left, right: e, body: b })); wf_stmt(*x.item) });
                }
            }
        }
    }
}
/// p_block, one step
pub proof fn u_block<'a>(s: Seq<Tok<'a>>, i: int)
    ensures p_block(s, i) == ({
        if at(s, i).kind is BraceOpen && plain(s, i + 1) {
            match p_statements(s, i + 1, Seq::empty()) {
                Some((b, j2)) => {
                    if at(s, j2).kind is BraceClose && plain(s, j2 + 1) {
                        Some((nd(Block { body: lst(b) }), j2 + 1))
                    } else { None }
                },
                None => None,
            }
        } else { None } })
{
    reveal(p_block);
    reveal(p_statements);
}
pub proof fn w_block<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_block(s, i) is Some
    ensures ({ let x = (p_block(s, i)->0).0; wf_block(*x.item) })
    decreases rem(s, i), 8int, 0int
{
    u_block(s, i);
    if at(s, i).kind is BraceOpen && plain(s, i + 1) {
        if let Some((b, j1)) = p_statements(s, i + 1, Seq::empty()) {
            w_statements(s, i + 1, Seq::empty());
            if at(s, j1).kind is BraceClose && plain(s, j1 + 1) {
                assert({ let x: BlockNode<'a, Statement<'a>> = nd(Block { body: lst(b) }); wf_block(*x.item) });
            }
        }
    }
}
/// p_block_case, one step
pub proof fn u_block_case<'a>(s: Seq<Tok<'a>>, i: int)
    ensures p_block_case(s, i) == ({
        if at(s, i).kind is BraceOpen && plain(s, i + 1) {
            match p_cases(s, i + 1, Seq::empty()) {
                Some((b, j2)) => {
                    if at(s, j2).kind is BraceClose && plain(s, j2 + 1) {
                        Some((nd(Block { body: lst(b) }), j2 + 1))
                    } else { None }
                },
                None => None,
            }
        } else { None } })
{
    reveal(p_block_case);
    reveal(p_cases);
}
}
pub use vx_wf7::*;
pub mod vx_wf8 {
use super::*;
pub proof fn w_block_case<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_block_case(s, i) is Some
    ensures ({ let x = (p_block_case(s, i)->0).0; wf_cblock(*x.item) })
    decreases rem(s, i), 8int, 0int
{
    u_block_case(s, i);
    if at(s, i).kind is BraceOpen && plain(s, i + 1) {
        if let Some((b, j1)) = p_cases(s, i + 1, Seq::empty()) {
            w_cases(s, i + 1, Seq::empty());
            if at(s, j1).kind is BraceClose && plain(s, j1 + 1) {
                assert({ let x: BlockNode<'a, SwitchCase<'a>> = nd(Block { body: lst(b) }); wf_cblock(*x.item) });
            }
        }
    }
}
/// p_cases, one step
pub proof fn u_cases<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<Node<'a, SwitchCase<'a>>>)
    ensures p_cases(s, i, acc) == ({
        if (at(s, i).kind is BraceClose || at(s, i).kind is EndOfProgram) {
            Some((acc, i))
        }
        else {
            match p_case(s, i) {
                Some((x, j3)) => if j3 > i {
                    p_cases(s, j3, acc.push(x))
                } else { None },
                None => None,
            }
        } })
{
    reveal(p_cases);
    reveal(p_case);
}
pub proof fn w_cases<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<Node<'a, SwitchCase<'a>>>)
    requires lexed(s), p_cases(s, i, acc) is Some, (forall|k: int| 0 <= k < acc.len() ==> wf_case(*(#[trigger] acc[k]).item))
    ensures ({ let x = (p_cases(s, i, acc)->0).0; (forall|k: int| 0 <= k < x.len() ==> wf_case(*(#[trigger] x[k]).item)) })
    decreases rem(s, i), 30int, 0int
{
    u_cases(s, i, acc);
    if (at(s, i).kind is BraceClose || at(s, i).kind is EndOfProgram) {
        assert({ let x: Seq<Node<'a, SwitchCase<'a>>> = acc; (forall|k: int| 0 <= k < x.len() ==> wf_case(*(#[trigger] x[k]).item)) });
    }
    else {
        if let Some((x, j1)) = p_case(s, i) {
            if j1 > i {
                w_case(s, i);
                if p_cases(s, j1, acc.push(x)) is Some { w_cases(s, j1, acc.push(x)); assert({ let x: Seq<Node<'a, SwitchCase<'a>>> = (p_cases(s, j1, acc.push(x))->0).0; (forall|k: int| 0 <= k < x.len() ==> wf_case(*(#[trigger] x[k]).item)) }); }
            }
        }
    }
}
/// p_case, one step
pub proof fn u_case<'a>(s: Seq<Tok<'a>>, i: int)
    ensures p_case(s, i) == ({
        if (at(s, i).kind is Case) {
            if plain(s, i + 1) {
                match p_expr(s, i + 1, -1, 0) {
                    Some((e, j4)) => if j4 >= i + 1 {
                        if at(s, j4).kind is Colon && plain(s, j4 + 1) {
                            match p_case_body(s, j4 + 1, Seq::empty()) {
                                Some((l, j5)) => {
                                    Some((nd(SwitchCase { test: Some(e), consequent: lst(l) }), j5))
                                },
                                None => None,
                            }
                        } else { None }
                    } else { None },
                    None => None,
                }
            } else { None }
        }
        else {
            if at(s, i).kind is Default && plain(s, i + 1) {
                if at(s, i + 1).kind is Colon && plain(s, i + 2) {
                    match p_case_body(s, i + 2, Seq::empty()) {
                        Some((l, j6)) => {
                            Some((nd(SwitchCase { test: None, consequent: lst(l) }), j6))
                        },
                        None => None,
                    }
                } else { None }
            } else { None }
        } })
{
    reveal(p_case);
    reveal(p_expr);
    reveal(p_case_body);
}
pub proof fn w_case<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_case(s, i) is Some
    ensures ({ let x = (p_case(s, i)->0).0; wf_case(*x.item) })
    decreases rem(s, i), 29int, 0int
{
    u_case(s, i);
    if (at(s, i).kind is Case) {
        if plain(s, i + 1) {
            if let Some((e, j1)) = p_expr(s, i + 1, -1, 0) {
                if j1 >= i + 1 {
                    w_expr(s, i + 1, -1, 0);
                    if at(s, j1).kind is Colon && plain(s, j1 + 1) {
                        if let Some((l, j2)) = p_case_body(s, j1 + 1, Seq::empty()) {
                            w_case_body(s, j1 + 1, Seq::empty());
                            assert({ let x: Node<'a, SwitchCase<'a>> = nd(SwitchCase { test: Some(e), consequent: lst(l) }); wf_case(*x.item) });
                        }
                    }
                }
            }
        }
    }
    else {
        if at(s, i).kind is Default && plain(s, i + 1) {
            if at(s, i + 1).kind is Colon && plain(s, i + 2) {
                if let Some((l, j3)) = p_case_body(s, i + 2, Seq::empty()) {
                    w_case_body(s, i + 2, Seq::empty());
                    assert({ let x: Node<'a, SwitchCase<'a>> = nd(SwitchCase { test: None, consequent: lst(l) }); wf_case(*x.item) });
                }
            }
        }
    }
}
/// p_case_body, one step
pub proof fn u_case_body<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<StatementNode<'a>>)
    ensures p_case_body(s, i, acc) == ({
        if (at(s, i).kind is Case || at(s, i).kind is Default || at(s, i).kind is BraceClose || at(s, i).kind is EndOfProgram) {
            Some((acc, i))
        }
        else {
            match p_statement(s, i) {
                Some((x, j3)) => if j3 > i {
                    p_case_body(s, j3, acc.push(x))
                } else { None },
                None => None,
            }
        } })
{
    reveal(p_case_body);
    reveal(p_statement);
}
pub proof fn w_case_body<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<StatementNode<'a>>)
    requires lexed(s), p_case_body(s, i, acc) is Some, (forall|k: int| 0 <= k < acc.len() ==> wf_stmt(*(#[trigger] acc[k]).item))
    ensures ({ let x = (p_case_body(s, i, acc)->0).0; (forall|k: int| 0 <= k < x.len() ==> wf_stmt(*(#[trigger] x[k]).item)) })
    decreases rem(s, i), 30int, 0int
{
    u_case_body(s, i, acc);
    if (at(s, i).kind is Case || at(s, i).kind is Default || at(s, i).kind is BraceClose || at(s, i).kind is EndOfProgram) {
        assert({ let x: Seq<StatementNode<'a>> = acc; (forall|k: int| 0 <= k < x.len() ==> wf_stmt(*(#[trigger] x[k]).item)) });
    }
    else {
        if let Some((x, j1)) = p_statement(s, i) {
            if j1 > i {
                w_statement(s, i);
                if p_case_body(s, j1, acc.push(x)) is Some { w_case_body(s, j1, acc.push(x)); assert({ let x: Seq<StatementNode<'a>> = (p_case_body(s, j1, acc.push(x))->0).0; (forall|k: int| 0 <= k < x.len() ==> wf_stmt(*(#[trigger] x[k]).item)) }); }
            }
        }
    }
}
/// p_import_names, one step
pub proof fn u_import_names<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<Node<'a, ForImportSpecifier<'a>>>)
    ensures p_import_names(s, i, acc) == ({
        let imported = nd(at(s, i).text);
        if at(s, i).kind is Identifier && plain(s, i + 1) {
            if (at(s, i + 1).kind is Identifier) && at(s, i + 1).text == lit(29537) {
                if plain(s, i + 2) {
                    let d = nd(ForImportSpecifier::ImportSpecifier(ImportSpecifier { imported, local: nd(at(s, i + 2).text) }));
                    if at(s, i + 2).kind is Identifier && plain(s, i + 3) {
                        p_import_next(s, i + 3, acc.push(d))
                    } else { None }
                } else { None }
            }
            else {
                let d = nd(ForImportSpecifier::ImportSpecifier(ImportSpecifier { imported, local: imported }));
                p_import_next(s, i + 1, acc.push(d))
            }
        } else { None } })
{
    reveal(p_import_names);
    reveal(p_import_next);
}
pub proof fn w_import_names<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<Node<'a, ForImportSpecifier<'a>>>)
    requires lexed(s), p_import_names(s, i, acc) is Some
    ensures ({ let x = (p_import_names(s, i, acc)->0).0; wf_stmt(*x.item) })
    decreases rem(s, i), 5int, 0int
{
    u_import_names(s, i, acc);
    let imported = nd(at(s, i).text);
    if at(s, i).kind is Identifier && plain(s, i + 1) {
        if (at(s, i + 1).kind is Identifier) && at(s, i + 1).text == lit(29537) {
            if plain(s, i + 2) {
                let d = nd(ForImportSpecifier::ImportSpecifier(ImportSpecifier { imported, local: nd(at(s, i + 2).text) }));
                if at(s, i + 2).kind is Identifier && plain(s, i + 3) {
                    if p_import_next(s, i + 3, acc.push(d)) is Some { w_import_next(s, i + 3, acc.push(d)); assert({ let x: StatementNode<'a> = (p_import_next(s, i + 3, acc.push(d))->0).0; wf_stmt(*x.item) }); }
                }
            }
        }
        else {
            let d = nd(ForImportSpecifier::ImportSpecifier(ImportSpecifier { imported, local: imported }));
            if p_import_next(s, i + 1, acc.push(d)) is Some { w_import_next(s, i + 1, acc.push(d)); assert({ let x: StatementNode<'a> = (p_import_next(s, i + 1, acc.push(d))->0).0; wf_stmt(*x.item) }); }
        }
    }
}
/// p_import_next, one step
pub proof fn u_import_next<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<Node<'a, ForImportSpecifier<'a>>>)
    ensures p_import_next(s, i, acc) == ({
        if (at(s, i).kind is Comma) {
            if plain(s, i + 1) {
                p_import_names(s, i + 1, acc)
            } else { None }
        }
        else {
            if at(s, i).kind is BraceClose && plain(s, i + 1) {
                p_import_from(s, i + 1, acc)
            } else { None }
        } })
{
    reveal(p_import_next);
    reveal(p_import_names);
    reveal(p_import_from);
}
pub proof fn w_import_next<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<Node<'a, ForImportSpecifier<'a>>>)
    requires lexed(s), p_import_next(s, i, acc) is Some
    ensures ({ let x = (p_import_next(s, i, acc)->0).0; wf_stmt(*x.item) })
    decreases rem(s, i), 5int, 0int
{
    u_import_next(s, i, acc);
    if (at(s, i).kind is Comma) {
        if plain(s, i + 1) {
            if p_import_names(s, i + 1, acc) is Some { w_import_names(s, i + 1, acc); assert({ let x: StatementNode<'a> = (p_import_names(s, i + 1, acc)->0).0; wf_stmt(*x.item) }); }
        }
    }
    else {
        if at(s, i).kind is BraceClose && plain(s, i + 1) {
            if p_import_from(s, i + 1, acc) is Some { w_import_from(s, i + 1, acc); assert({ let x: StatementNode<'a> = (p_import_from(s, i + 1, acc)->0).0; wf_stmt(*x.item) }); }
        }
    }
}
/// p_import_from, one step
pub proof fn u_import_from<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<Node<'a, ForImportSpecifier<'a>>>)
    ensures p_import_from(s, i, acc) == ({
        if (at(s, i).kind is Identifier) && at(s, i).text == lit(1836020326) {
            if plain(s, i + 1) {
                let source = unquote(at(s, i + 1).text);
                if at(s, i + 1).kind is LiteralString && plain(s, i + 2) {
                    match p_semi(s, i + 2) {
                        Some((u, j2)) => {
                            Some((nd(Statement::Import(ImportDeclaration { specifiers: lst(acc), source })), j2))
                        },
                        None => None,
                    }
                } else { None }
            } else { None }
        } else { None } })
{
    reveal(p_import_from);
}
pub proof fn w_import_from<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<Node<'a, ForImportSpecifier<'a>>>)
    requires lexed(s), p_import_from(s, i, acc) is Some
    ensures ({ let x = (p_import_from(s, i, acc)->0).0; wf_stmt(*x.item) })
    decreases rem(s, i), 3int, 0int
{
    u_import_from(s, i, acc);
    if (at(s, i).kind is Identifier) && at(s, i).text == lit(1836020326) {
        if plain(s, i + 1) {
            let source = unquote(at(s, i + 1).text);
            if at(s, i + 1).kind is LiteralString && plain(s, i + 2) {
                if let Some((u, j1)) = p_semi(s, i + 2) {
                    
                    assert({ let x: StatementNode<'a> = nd(Statement::Import(ImportDeclaration { specifiers: lst(acc), source })); wf_stmt(*x.item) });
                }
            }
        }
    }
}
}
pub use vx_wf8::*;
pub mod vx_wf9 {
use super::*;
/// p_function_empty, one step
pub proof fn u_function_empty<'a>(s: Seq<Tok<'a>>, i: int)
    ensures p_function_empty(s, i) == ({
        if (at(s, i).kind is OperatorMultiplication) {
            if plain(s, i + 1) {
                let generator = true;
                let name = EmptyName;
                match p_params(s, i + 1) {
                    Some((ps, j5)) => if j5 >= i + 1 {
                        match p_block(s, j5) {
                            Some((b, j6)) => {
                                Some((Function { name, generator, params: lst(ps), body: b }, j6))
                            },
                            None => None,
                        }
                    } else { None },
                    None => None,
                }
            } else { None }
        }
        else {
            let generator = false;
            let name = EmptyName;
            match p_params(s, i) {
                Some((ps, j7)) => if j7 >= i {
                    match p_block(s, j7) {
                        Some((b, j8)) => {
                            Some((Function { name, generator, params: lst(ps), body: b }, j8))
                        },
                        None => None,
                    }
                } else { None },
                None => None,
            }
        } })
{
    reveal(p_function_empty);
    reveal(p_params);
    reveal(p_block);
}
pub proof fn w_function_empty<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_function_empty(s, i) is Some
    ensures ({ let x = (p_function_empty(s, i)->0).0; wf_func(x) })
    decreases rem(s, i), 12int, 0int
{
    u_function_empty(s, i);
    if (at(s, i).kind is OperatorMultiplication) {
        if plain(s, i + 1) {
            let generator = true;
            let name = EmptyName;
            if let Some((ps, j1)) = p_params(s, i + 1) {
                if j1 >= i + 1 {
                    w_params(s, i + 1);
                    if let Some((b, j2)) = p_block(s, j1) {
                        w_block(s, j1);
                        assert({ let x: Function<'a, EmptyName> = Function { name, generator, params: lst(ps), body: b }; wf_func(x) });
                    }
                }
            }
        }
    }
    else {
        let generator = false;
        let name = EmptyName;
        if let Some((ps, j3)) = p_params(s, i) {
            if j3 >= i {
                w_params(s, i);
                if let Some((b, j4)) = p_block(s, j3) {
                    w_block(s, j3);
                    assert({ let x: Function<'a, EmptyName> = Function { name, generator, params: lst(ps), body: b }; wf_func(x) });
                }
            }
        }
    }
}
/// p_function_optional, one step
pub proof fn u_function_optional<'a>(s: Seq<Tok<'a>>, i: int)
    ensures p_function_optional(s, i) == ({
        if (at(s, i).kind is OperatorMultiplication) {
            if plain(s, i + 1) {
                let generator = true;
                match p_optional_name(s, i + 1) {
                    Some((name, j7)) => if j7 >= i + 1 {
                        match p_params(s, j7) {
                            Some((ps, j8)) => if j8 >= j7 {
                                match p_block(s, j8) {
                                    Some((b, j9)) => {
                                        Some((Function { name, generator, params: lst(ps), body: b }, j9))
                                    },
                                    None => None,
                                }
                            } else { None },
                            None => None,
                        }
                    } else { None },
                    None => None,
                }
            } else { None }
        }
        else {
            let generator = false;
            match p_optional_name(s, i) {
                Some((name, j10)) => if j10 >= i {
                    match p_params(s, j10) {
                        Some((ps, j11)) => if j11 >= j10 {
                            match p_block(s, j11) {
                                Some((b, j12)) => {
                                    Some((Function { name, generator, params: lst(ps), body: b }, j12))
                                },
                                None => None,
                            }
                        } else { None },
                        None => None,
                    }
                } else { None },
                None => None,
            }
        } })
{
    reveal(p_function_optional);
    reveal(p_params);
    reveal(p_block);
}
pub proof fn w_function_optional<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_function_optional(s, i) is Some
    ensures ({ let x = (p_function_optional(s, i)->0).0; wf_func(x) })
    decreases rem(s, i), 12int, 0int
{
    u_function_optional(s, i);
    if (at(s, i).kind is OperatorMultiplication) {
        if plain(s, i + 1) {
            let generator = true;
            if let Some((name, j1)) = p_optional_name(s, i + 1) {
                if j1 >= i + 1 {
                    
                    if let Some((ps, j2)) = p_params(s, j1) {
                        if j2 >= j1 {
                            w_params(s, j1);
                            if let Some((b, j3)) = p_block(s, j2) {
                                w_block(s, j2);
                                assert({ let x: Function<'a, OptionalName<'a>> = Function { name, generator, params: lst(ps), body: b }; wf_func(x) });
                            }
                        }
                    }
                }
            }
        }
    }
    else {
        let generator = false;
        if let Some((name, j4)) = p_optional_name(s, i) {
            if j4 >= i {
                
                if let Some((ps, j5)) = p_params(s, j4) {
                    if j5 >= j4 {
                        w_params(s, j4);
                        if let Some((b, j6)) = p_block(s, j5) {
                            w_block(s, j5);
                            assert({ let x: Function<'a, OptionalName<'a>> = Function { name, generator, params: lst(ps), body: b }; wf_func(x) });
                        }
                    }
                }
            }
        }
    }
}
/// p_class_optional, one step
pub proof fn u_class_optional<'a>(s: Seq<Tok<'a>>, i: int)
    ensures p_class_optional(s, i) == ({
        match p_optional_name(s, i) {
            Some((name, j5)) => if j5 >= i {
                if (at(s, j5).kind is Extends) {
                    if plain(s, j5 + 1) {
                        match p_expr(s, j5 + 1, 0, 0) {
                            Some((e, j6)) => if j6 >= j5 + 1 {
                                let extends = Some(e);
                                match p_block_member(s, j6) {
                                    Some((b, j7)) => {
                                        Some((Class { name, extends, body: b }, j7))
                                    },
                                    None => None,
                                }
                            } else { None },
                            None => None,
                        }
                    } else { None }
                }
                else {
                    let extends = None;
                    match p_block_member(s, j5) {
                        Some((b, j8)) => {
                            Some((Class { name, extends, body: b }, j8))
                        },
                        None => None,
                    }
                }
            } else { None },
            None => None,
        } })
{
    reveal(p_class_optional);
    reveal(p_expr);
    reveal(p_block_member);
}
pub proof fn w_class_optional<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_class_optional(s, i) is Some
    ensures ({ let x = (p_class_optional(s, i)->0).0; wf_class(x) })
    decreases rem(s, i), 12int, 0int
{
    u_class_optional(s, i);
    if let Some((name, j1)) = p_optional_name(s, i) {
        if j1 >= i {
            
            if (at(s, j1).kind is Extends) {
                if plain(s, j1 + 1) {
                    if let Some((e, j2)) = p_expr(s, j1 + 1, 0, 0) {
                        if j2 >= j1 + 1 {
                            w_expr(s, j1 + 1, 0, 0);
                            let extends = Some(e);
                            if let Some((b, j3)) = p_block_member(s, j2) {
                                w_block_member(s, j2);
                                assert({ let x: Class<'a, OptionalName<'a>> = Class { name, extends, body: b }; wf_class(x) });
                            }
                        }
                    }
                }
            }
            else {
                let extends = None;
                if let Some((b, j4)) = p_block_member(s, j1) {
                    w_block_member(s, j1);
                    assert({ let x: Class<'a, OptionalName<'a>> = Class { name, extends, body: b }; wf_class(x) });
                }
            }
        }
    }
}
}
pub use vx_wf9::*;
pub mod vx_wf10 {
use super::*;
/// p_function_mandatory, one step
pub proof fn u_function_mandatory<'a>(s: Seq<Tok<'a>>, i: int)
    ensures p_function_mandatory(s, i) == ({
        if (at(s, i).kind is OperatorMultiplication) {
            if plain(s, i + 1) {
                let generator = true;
                match p_mandatory_name(s, i + 1) {
                    Some((name, j7)) => if j7 >= i + 1 {
                        match p_params(s, j7) {
                            Some((ps, j8)) => if j8 >= j7 {
                                match p_block(s, j8) {
                                    Some((b, j9)) => {
                                        Some((Function { name, generator, params: lst(ps), body: b }, j9))
                                    },
                                    None => None,
                                }
                            } else { None },
                            None => None,
                        }
                    } else { None },
                    None => None,
                }
            } else { None }
        }
        else {
            let generator = false;
            match p_mandatory_name(s, i) {
                Some((name, j10)) => if j10 >= i {
                    match p_params(s, j10) {
                        Some((ps, j11)) => if j11 >= j10 {
                            match p_block(s, j11) {
                                Some((b, j12)) => {
                                    Some((Function { name, generator, params: lst(ps), body: b }, j12))
                                },
                                None => None,
                            }
                        } else { None },
                        None => None,
                    }
                } else { None },
                None => None,
            }
        } })
{
    reveal(p_function_mandatory);
    reveal(p_params);
    reveal(p_block);
}
pub proof fn w_function_mandatory<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_function_mandatory(s, i) is Some
    ensures ({ let x = (p_function_mandatory(s, i)->0).0; wf_func(x) })
    decreases rem(s, i), 12int, 0int
{
    u_function_mandatory(s, i);
    if (at(s, i).kind is OperatorMultiplication) {
        if plain(s, i + 1) {
            let generator = true;
            if let Some((name, j1)) = p_mandatory_name(s, i + 1) {
                if j1 >= i + 1 {
                    
                    if let Some((ps, j2)) = p_params(s, j1) {
                        if j2 >= j1 {
                            w_params(s, j1);
                            if let Some((b, j3)) = p_block(s, j2) {
                                w_block(s, j2);
                                assert({ let x: Function<'a, MandatoryName<'a>> = Function { name, generator, params: lst(ps), body: b }; wf_func(x) });
                            }
                        }
                    }
                }
            }
        }
    }
    else {
        let generator = false;
        if let Some((name, j4)) = p_mandatory_name(s, i) {
            if j4 >= i {
                
                if let Some((ps, j5)) = p_params(s, j4) {
                    if j5 >= j4 {
                        w_params(s, j4);
                        if let Some((b, j6)) = p_block(s, j5) {
                            w_block(s, j5);
                            assert({ let x: Function<'a, MandatoryName<'a>> = Function { name, generator, params: lst(ps), body: b }; wf_func(x) });
                        }
                    }
                }
            }
        }
    }
}
/// p_class_mandatory, one step
pub proof fn u_class_mandatory<'a>(s: Seq<Tok<'a>>, i: int)
    ensures p_class_mandatory(s, i) == ({
        match p_mandatory_name(s, i) {
            Some((name, j5)) => if j5 >= i {
                if (at(s, j5).kind is Extends) {
                    if plain(s, j5 + 1) {
                        match p_expr(s, j5 + 1, 0, 0) {
                            Some((e, j6)) => if j6 >= j5 + 1 {
                                let extends = Some(e);
                                match p_block_member(s, j6) {
                                    Some((b, j7)) => {
                                        Some((Class { name, extends, body: b }, j7))
                                    },
                                    None => None,
                                }
                            } else { None },
                            None => None,
                        }
                    } else { None }
                }
                else {
                    let extends = None;
                    match p_block_member(s, j5) {
                        Some((b, j8)) => {
                            Some((Class { name, extends, body: b }, j8))
                        },
                        None => None,
                    }
                }
            } else { None },
            None => None,
        } })
{
    reveal(p_class_mandatory);
    reveal(p_expr);
    reveal(p_block_member);
}
pub proof fn w_class_mandatory<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_class_mandatory(s, i) is Some
    ensures ({ let x = (p_class_mandatory(s, i)->0).0; wf_class(x) })
    decreases rem(s, i), 12int, 0int
{
    u_class_mandatory(s, i);
    if let Some((name, j1)) = p_mandatory_name(s, i) {
        if j1 >= i {
            
            if (at(s, j1).kind is Extends) {
                if plain(s, j1 + 1) {
                    if let Some((e, j2)) = p_expr(s, j1 + 1, 0, 0) {
                        if j2 >= j1 + 1 {
                            w_expr(s, j1 + 1, 0, 0);
                            let extends = Some(e);
                            if let Some((b, j3)) = p_block_member(s, j2) {
                                w_block_member(s, j2);
                                assert({ let x: Class<'a, MandatoryName<'a>> = Class { name, extends, body: b }; wf_class(x) });
                            }
                        }
                    }
                }
            }
            else {
                let extends = None;
                if let Some((b, j4)) = p_block_member(s, j1) {
                    w_block_member(s, j1);
                    assert({ let x: Class<'a, MandatoryName<'a>> = Class { name, extends, body: b }; wf_class(x) });
                }
            }
        }
    }
}
/// p_block_member, one step
pub proof fn u_block_member<'a>(s: Seq<Tok<'a>>, i: int)
    ensures p_block_member(s, i) == ({
        if at(s, i).kind is BraceOpen && plain(s, i + 1) {
            match p_members(s, i + 1, Seq::empty()) {
                Some((b, j2)) => {
                    if at(s, j2).kind is BraceClose && plain(s, j2 + 1) {
                        Some((nd(Block { body: lst(b) }), j2 + 1))
                    } else { None }
                },
                None => None,
            }
        } else { None } })
{
    reveal(p_block_member);
    reveal(p_members);
}
pub proof fn w_block_member<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_block_member(s, i) is Some
    ensures ({ let x = (p_block_member(s, i)->0).0; wf_mblock(*x.item) })
    decreases rem(s, i), 8int, 0int
{
    u_block_member(s, i);
    if at(s, i).kind is BraceOpen && plain(s, i + 1) {
        if let Some((b, j1)) = p_members(s, i + 1, Seq::empty()) {
            w_members(s, i + 1, Seq::empty());
            if at(s, j1).kind is BraceClose && plain(s, j1 + 1) {
                assert({ let x: BlockNode<'a, ClassMember<'a>> = nd(Block { body: lst(b) }); wf_mblock(*x.item) });
            }
        }
    }
}
/// p_members, one step
pub proof fn u_members<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<Node<'a, ClassMember<'a>>>)
    ensures p_members(s, i, acc) == ({
        if (at(s, i).kind is BraceClose || at(s, i).kind is EndOfProgram) {
            Some((acc, i))
        }
        else {
            match p_member(s, i) {
                Some((x, j3)) => if j3 > i {
                    p_members(s, j3, acc.push(x))
                } else { None },
                None => None,
            }
        } })
{
    reveal(p_members);
    reveal(p_member);
}
pub proof fn w_members<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<Node<'a, ClassMember<'a>>>)
    requires lexed(s), p_members(s, i, acc) is Some, (forall|k: int| 0 <= k < acc.len() ==> wf_member(*(#[trigger] acc[k]).item))
    ensures ({ let x = (p_members(s, i, acc)->0).0; (forall|k: int| 0 <= k < x.len() ==> wf_member(*(#[trigger] x[k]).item)) })
    decreases rem(s, i), 30int, 0int
{
    u_members(s, i, acc);
    if (at(s, i).kind is BraceClose || at(s, i).kind is EndOfProgram) {
        assert({ let x: Seq<Node<'a, ClassMember<'a>>> = acc; (forall|k: int| 0 <= k < x.len() ==> wf_member(*(#[trigger] x[k]).item)) });
    }
    else {
        if let Some((x, j1)) = p_member(s, i) {
            if j1 > i {
                w_member(s, i);
                if p_members(s, j1, acc.push(x)) is Some { w_members(s, j1, acc.push(x)); assert({ let x: Seq<Node<'a, ClassMember<'a>>> = (p_members(s, j1, acc.push(x))->0).0; (forall|k: int| 0 <= k < x.len() ==> wf_member(*(#[trigger] x[k]).item)) }); }
            }
        }
    }
}
}
pub use vx_wf10::*;
pub mod vx_wf11 {
use super::*;
/// p_member, one step
pub proof fn u_member_0_0<'a>(s: Seq<Tok<'a>>, i: int)
    requires (at(s, i).kind is Static), is_word(at(s, i + 1).kind) && is_word(at(s, i + 2).kind)
    ensures p_member(s, i) == ({
        if plain(s, i + 1) {
            let is_static = true;
            {
                let (is_static) = (is_static);
                if is_word(at(s, i + 1).kind) {
                    let label = at(s, i + 1).text;
                    if plain(s, i + 2) {
                        if is_word(at(s, i + 2).kind) {
                            let key = nd(PropertyKey::Literal(at(s, i + 2).text));
                            if plain(s, i + 3) {
                                if label == lit(7628135) {
                                    {
                                        let (is_static, kind, key) = (is_static, MethodKind::Get, key);
                                        if (at(s, i + 3).kind is ParenOpen) {
                                            match p_function_empty(s, i + 3) {
                                                Some((v, j16)) => {
                                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                    if (at(s, j16).kind is Semicolon) {
                                                        if plain(s, j16 + 1) {
                                                            Some((m, j16 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j16))
                                                    }
                                                },
                                                None => None,
                                            }
                                        }
                                        else {
                                            if at(s, i + 3).kind is OperatorAssign && plain(s, i + 4) {
                                                match p_expr(s, i + 4, 0, 0) {
                                                    Some((e, j17)) => {
                                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                        if (at(s, j17).kind is Semicolon) {
                                                            if plain(s, j17 + 1) {
                                                                Some((m, j17 + 1))
                                                            } else { None }
                                                        }
                                                        else {
                                                            Some((m, j17))
                                                        }
                                                    },
                                                    None => None,
                                                }
                                            } else { None }
                                        }
                                    }
                                }
                                else if label == lit(7628147) {
                                    {
                                        let (is_static, kind, key) = (is_static, MethodKind::Set, key);
                                        if (at(s, i + 3).kind is ParenOpen) {
                                            match p_function_empty(s, i + 3) {
                                                Some((v, j19)) => {
                                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                    if (at(s, j19).kind is Semicolon) {
                                                        if plain(s, j19 + 1) {
                                                            Some((m, j19 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j19))
                                                    }
                                                },
                                                None => None,
                                            }
                                        }
                                        else {
                                            if at(s, i + 3).kind is OperatorAssign && plain(s, i + 4) {
                                                match p_expr(s, i + 4, 0, 0) {
                                                    Some((e, j20)) => {
                                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                        if (at(s, j20).kind is Semicolon) {
                                                            if plain(s, j20 + 1) {
                                                                Some((m, j20 + 1))
                                                            } else { None }
                                                        }
                                                        else {
                                                            Some((m, j20))
                                                        }
                                                    },
                                                    None => None,
                                                }
                                            } else { None }
                                        }
                                    }
                                }
                                else {
                                    None
                                }
                            } else { None }
                        }
                        else {
                            let kind = if !is_static && label == lit(138343873104739033351614307) { MethodKind::Constructor } else { MethodKind::Method };
                            {
                                let (is_static, kind, key) = (is_static, kind, nd(PropertyKey::Literal(label)));
                                if (at(s, i + 2).kind is ParenOpen) {
                                    match p_function_empty(s, i + 2) {
                                        Some((v, j22)) => {
                                            let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                            if (at(s, j22).kind is Semicolon) {
                                                if plain(s, j22 + 1) {
                                                    Some((m, j22 + 1))
                                                } else { None }
                                            }
                                            else {
                                                Some((m, j22))
                                            }
                                        },
                                        None => None,
                                    }
                                }
                                else {
                                    if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                        match p_expr(s, i + 3, 0, 0) {
                                            Some((e, j23)) => {
                                                let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                if (at(s, j23).kind is Semicolon) {
                                                    if plain(s, j23 + 1) {
                                                        Some((m, j23 + 1))
                                                    } else { None }
                                                }
                                                else {
                                                    Some((m, j23))
                                                }
                                            },
                                            None => None,
                                        }
                                    } else { None }
                                }
                            }
                        }
                    } else { None }
                }
                else if (at(s, i + 1).kind is LiteralNumber) {
                    let n = at(s, i + 1).text;
                    if plain(s, i + 2) {
                        {
                            let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Literal(n)));
                            if (at(s, i + 2).kind is ParenOpen) {
                                match p_function_empty(s, i + 2) {
                                    Some((v, j25)) => {
                                        let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                        if (at(s, j25).kind is Semicolon) {
                                            if plain(s, j25 + 1) {
                                                Some((m, j25 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j25))
                                        }
                                    },
                                    None => None,
                                }
                            }
                            else {
                                if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                    match p_expr(s, i + 3, 0, 0) {
                                        Some((e, j26)) => {
                                            let m = nd(ClassMember::Literal { is_static, key, value: e });
                                            if (at(s, j26).kind is Semicolon) {
                                                if plain(s, j26 + 1) {
                                                    Some((m, j26 + 1))
                                                } else { None }
                                            }
                                            else {
                                                Some((m, j26))
                                            }
                                        },
                                        None => None,
                                    }
                                } else { None }
                            }
                        }
                    } else { None }
                }
                else if (at(s, i + 1).kind is LiteralBinary) {
                    let n = at(s, i + 1).text;
                    if plain(s, i + 2) {
                        {
                            let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Binary(n)));
                            if (at(s, i + 2).kind is ParenOpen) {
                                match p_function_empty(s, i + 2) {
                                    Some((v, j28)) => {
                                        let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                        if (at(s, j28).kind is Semicolon) {
                                            if plain(s, j28 + 1) {
                                                Some((m, j28 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j28))
                                        }
                                    },
                                    None => None,
                                }
                            }
                            else {
                                if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                    match p_expr(s, i + 3, 0, 0) {
                                        Some((e, j29)) => {
                                            let m = nd(ClassMember::Literal { is_static, key, value: e });
                                            if (at(s, j29).kind is Semicolon) {
                                                if plain(s, j29 + 1) {
                                                    Some((m, j29 + 1))
                                                } else { None }
                                            }
                                            else {
                                                Some((m, j29))
                                            }
                                        },
                                        None => None,
                                    }
                                } else { None }
                            }
                        }
                    } else { None }
                }
                else if (at(s, i + 1).kind is BracketOpen) {
                    if plain(s, i + 2) {
                        match p_expr(s, i + 2, -1, 0) {
                            Some((e, j30)) => if j30 >= i + 2 {
                                if at(s, j30).kind is BracketClose && plain(s, j30 + 1) {
                                    {
                                        let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Computed(e)));
                                        if (at(s, j30 + 1).kind is ParenOpen) {
                                            match p_function_empty(s, j30 + 1) {
                                                Some((v, j32)) => {
                                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                    if (at(s, j32).kind is Semicolon) {
                                                        if plain(s, j32 + 1) {
                                                            Some((m, j32 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j32))
                                                    }
                                                },
                                                None => None,
                                            }
                                        }
                                        else {
                                            if at(s, j30 + 1).kind is OperatorAssign && plain(s, j30 + 2) {
                                                match p_expr(s, j30 + 2, 0, 0) {
                                                    Some((e, j33)) => {
                                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                        if (at(s, j33).kind is Semicolon) {
                                                            if plain(s, j33 + 1) {
                                                                Some((m, j33 + 1))
                                                            } else { None }
                                                        }
                                                        else {
                                                            Some((m, j33))
                                                        }
                                                    },
                                                    None => None,
                                                }
                                            } else { None }
                                        }
                                    }
                                } else { None }
                            } else { None },
                            None => None,
                        }
                    } else { None }
                }
                else {
                    None
                }
            }
        } else { None } })
{
    reveal(p_member);
    reveal(p_function_empty);
    reveal(p_expr);
}
}
pub use vx_wf11::*;
pub mod vx_wf12 {
use super::*;
/// p_member, one step
pub proof fn u_member_0_1<'a>(s: Seq<Tok<'a>>, i: int)
    requires (at(s, i).kind is Static), !(is_word(at(s, i + 1).kind) && is_word(at(s, i + 2).kind)), is_word(at(s, i + 1).kind) && at(s, i + 2).kind is ParenOpen
    ensures p_member(s, i) == ({
        if plain(s, i + 1) {
            let is_static = true;
            {
                let (is_static) = (is_static);
                if is_word(at(s, i + 1).kind) {
                    let label = at(s, i + 1).text;
                    if plain(s, i + 2) {
                        if is_word(at(s, i + 2).kind) {
                            let key = nd(PropertyKey::Literal(at(s, i + 2).text));
                            if plain(s, i + 3) {
                                if label == lit(7628135) {
                                    {
                                        let (is_static, kind, key) = (is_static, MethodKind::Get, key);
                                        if (at(s, i + 3).kind is ParenOpen) {
                                            match p_function_empty(s, i + 3) {
                                                Some((v, j16)) => {
                                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                    if (at(s, j16).kind is Semicolon) {
                                                        if plain(s, j16 + 1) {
                                                            Some((m, j16 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j16))
                                                    }
                                                },
                                                None => None,
                                            }
                                        }
                                        else {
                                            if at(s, i + 3).kind is OperatorAssign && plain(s, i + 4) {
                                                match p_expr(s, i + 4, 0, 0) {
                                                    Some((e, j17)) => {
                                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                        if (at(s, j17).kind is Semicolon) {
                                                            if plain(s, j17 + 1) {
                                                                Some((m, j17 + 1))
                                                            } else { None }
                                                        }
                                                        else {
                                                            Some((m, j17))
                                                        }
                                                    },
                                                    None => None,
                                                }
                                            } else { None }
                                        }
                                    }
                                }
                                else if label == lit(7628147) {
                                    {
                                        let (is_static, kind, key) = (is_static, MethodKind::Set, key);
                                        if (at(s, i + 3).kind is ParenOpen) {
                                            match p_function_empty(s, i + 3) {
                                                Some((v, j19)) => {
                                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                    if (at(s, j19).kind is Semicolon) {
                                                        if plain(s, j19 + 1) {
                                                            Some((m, j19 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j19))
                                                    }
                                                },
                                                None => None,
                                            }
                                        }
                                        else {
                                            if at(s, i + 3).kind is OperatorAssign && plain(s, i + 4) {
                                                match p_expr(s, i + 4, 0, 0) {
                                                    Some((e, j20)) => {
                                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                        if (at(s, j20).kind is Semicolon) {
                                                            if plain(s, j20 + 1) {
                                                                Some((m, j20 + 1))
                                                            } else { None }
                                                        }
                                                        else {
                                                            Some((m, j20))
                                                        }
                                                    },
                                                    None => None,
                                                }
                                            } else { None }
                                        }
                                    }
                                }
                                else {
                                    None
                                }
                            } else { None }
                        }
                        else {
                            let kind = if !is_static && label == lit(138343873104739033351614307) { MethodKind::Constructor } else { MethodKind::Method };
                            {
                                let (is_static, kind, key) = (is_static, kind, nd(PropertyKey::Literal(label)));
                                if (at(s, i + 2).kind is ParenOpen) {
                                    match p_function_empty(s, i + 2) {
                                        Some((v, j22)) => {
                                            let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                            if (at(s, j22).kind is Semicolon) {
                                                if plain(s, j22 + 1) {
                                                    Some((m, j22 + 1))
                                                } else { None }
                                            }
                                            else {
                                                Some((m, j22))
                                            }
                                        },
                                        None => None,
                                    }
                                }
                                else {
                                    if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                        match p_expr(s, i + 3, 0, 0) {
                                            Some((e, j23)) => {
                                                let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                if (at(s, j23).kind is Semicolon) {
                                                    if plain(s, j23 + 1) {
                                                        Some((m, j23 + 1))
                                                    } else { None }
                                                }
                                                else {
                                                    Some((m, j23))
                                                }
                                            },
                                            None => None,
                                        }
                                    } else { None }
                                }
                            }
                        }
                    } else { None }
                }
                else if (at(s, i + 1).kind is LiteralNumber) {
                    let n = at(s, i + 1).text;
                    if plain(s, i + 2) {
                        {
                            let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Literal(n)));
                            if (at(s, i + 2).kind is ParenOpen) {
                                match p_function_empty(s, i + 2) {
                                    Some((v, j25)) => {
                                        let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                        if (at(s, j25).kind is Semicolon) {
                                            if plain(s, j25 + 1) {
                                                Some((m, j25 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j25))
                                        }
                                    },
                                    None => None,
                                }
                            }
                            else {
                                if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                    match p_expr(s, i + 3, 0, 0) {
                                        Some((e, j26)) => {
                                            let m = nd(ClassMember::Literal { is_static, key, value: e });
                                            if (at(s, j26).kind is Semicolon) {
                                                if plain(s, j26 + 1) {
                                                    Some((m, j26 + 1))
                                                } else { None }
                                            }
                                            else {
                                                Some((m, j26))
                                            }
                                        },
                                        None => None,
                                    }
                                } else { None }
                            }
                        }
                    } else { None }
                }
                else if (at(s, i + 1).kind is LiteralBinary) {
                    let n = at(s, i + 1).text;
                    if plain(s, i + 2) {
                        {
                            let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Binary(n)));
                            if (at(s, i + 2).kind is ParenOpen) {
                                match p_function_empty(s, i + 2) {
                                    Some((v, j28)) => {
                                        let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                        if (at(s, j28).kind is Semicolon) {
                                            if plain(s, j28 + 1) {
                                                Some((m, j28 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j28))
                                        }
                                    },
                                    None => None,
                                }
                            }
                            else {
                                if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                    match p_expr(s, i + 3, 0, 0) {
                                        Some((e, j29)) => {
                                            let m = nd(ClassMember::Literal { is_static, key, value: e });
                                            if (at(s, j29).kind is Semicolon) {
                                                if plain(s, j29 + 1) {
                                                    Some((m, j29 + 1))
                                                } else { None }
                                            }
                                            else {
                                                Some((m, j29))
                                            }
                                        },
                                        None => None,
                                    }
                                } else { None }
                            }
                        }
                    } else { None }
                }
                else if (at(s, i + 1).kind is BracketOpen) {
                    if plain(s, i + 2) {
                        match p_expr(s, i + 2, -1, 0) {
                            Some((e, j30)) => if j30 >= i + 2 {
                                if at(s, j30).kind is BracketClose && plain(s, j30 + 1) {
                                    {
                                        let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Computed(e)));
                                        if (at(s, j30 + 1).kind is ParenOpen) {
                                            match p_function_empty(s, j30 + 1) {
                                                Some((v, j32)) => {
                                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                    if (at(s, j32).kind is Semicolon) {
                                                        if plain(s, j32 + 1) {
                                                            Some((m, j32 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j32))
                                                    }
                                                },
                                                None => None,
                                            }
                                        }
                                        else {
                                            if at(s, j30 + 1).kind is OperatorAssign && plain(s, j30 + 2) {
                                                match p_expr(s, j30 + 2, 0, 0) {
                                                    Some((e, j33)) => {
                                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                        if (at(s, j33).kind is Semicolon) {
                                                            if plain(s, j33 + 1) {
                                                                Some((m, j33 + 1))
                                                            } else { None }
                                                        }
                                                        else {
                                                            Some((m, j33))
                                                        }
                                                    },
                                                    None => None,
                                                }
                                            } else { None }
                                        }
                                    }
                                } else { None }
                            } else { None },
                            None => None,
                        }
                    } else { None }
                }
                else {
                    None
                }
            }
        } else { None } })
{
    reveal(p_member);
    reveal(p_function_empty);
    reveal(p_expr);
}
}
pub use vx_wf12::*;
pub mod vx_wf13 {
use super::*;
/// p_member, one step
pub proof fn u_member_0_2<'a>(s: Seq<Tok<'a>>, i: int)
    requires (at(s, i).kind is Static), !(is_word(at(s, i + 1).kind) && is_word(at(s, i + 2).kind)), !(is_word(at(s, i + 1).kind) && at(s, i + 2).kind is ParenOpen), is_word(at(s, i + 1).kind)
    ensures p_member(s, i) == ({
        if plain(s, i + 1) {
            let is_static = true;
            {
                let (is_static) = (is_static);
                if is_word(at(s, i + 1).kind) {
                    let label = at(s, i + 1).text;
                    if plain(s, i + 2) {
                        if is_word(at(s, i + 2).kind) {
                            let key = nd(PropertyKey::Literal(at(s, i + 2).text));
                            if plain(s, i + 3) {
                                if label == lit(7628135) {
                                    {
                                        let (is_static, kind, key) = (is_static, MethodKind::Get, key);
                                        if (at(s, i + 3).kind is ParenOpen) {
                                            match p_function_empty(s, i + 3) {
                                                Some((v, j16)) => {
                                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                    if (at(s, j16).kind is Semicolon) {
                                                        if plain(s, j16 + 1) {
                                                            Some((m, j16 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j16))
                                                    }
                                                },
                                                None => None,
                                            }
                                        }
                                        else {
                                            if at(s, i + 3).kind is OperatorAssign && plain(s, i + 4) {
                                                match p_expr(s, i + 4, 0, 0) {
                                                    Some((e, j17)) => {
                                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                        if (at(s, j17).kind is Semicolon) {
                                                            if plain(s, j17 + 1) {
                                                                Some((m, j17 + 1))
                                                            } else { None }
                                                        }
                                                        else {
                                                            Some((m, j17))
                                                        }
                                                    },
                                                    None => None,
                                                }
                                            } else { None }
                                        }
                                    }
                                }
                                else if label == lit(7628147) {
                                    {
                                        let (is_static, kind, key) = (is_static, MethodKind::Set, key);
                                        if (at(s, i + 3).kind is ParenOpen) {
                                            match p_function_empty(s, i + 3) {
                                                Some((v, j19)) => {
                                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                    if (at(s, j19).kind is Semicolon) {
                                                        if plain(s, j19 + 1) {
                                                            Some((m, j19 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j19))
                                                    }
                                                },
                                                None => None,
                                            }
                                        }
                                        else {
                                            if at(s, i + 3).kind is OperatorAssign && plain(s, i + 4) {
                                                match p_expr(s, i + 4, 0, 0) {
                                                    Some((e, j20)) => {
                                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                        if (at(s, j20).kind is Semicolon) {
                                                            if plain(s, j20 + 1) {
                                                                Some((m, j20 + 1))
                                                            } else { None }
                                                        }
                                                        else {
                                                            Some((m, j20))
                                                        }
                                                    },
                                                    None => None,
                                                }
                                            } else { None }
                                        }
                                    }
                                }
                                else {
                                    None
                                }
                            } else { None }
                        }
                        else {
                            let kind = if !is_static && label == lit(138343873104739033351614307) { MethodKind::Constructor } else { MethodKind::Method };
                            {
                                let (is_static, kind, key) = (is_static, kind, nd(PropertyKey::Literal(label)));
                                if (at(s, i + 2).kind is ParenOpen) {
                                    match p_function_empty(s, i + 2) {
                                        Some((v, j22)) => {
                                            let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                            if (at(s, j22).kind is Semicolon) {
                                                if plain(s, j22 + 1) {
                                                    Some((m, j22 + 1))
                                                } else { None }
                                            }
                                            else {
                                                Some((m, j22))
                                            }
                                        },
                                        None => None,
                                    }
                                }
                                else {
                                    if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                        match p_expr(s, i + 3, 0, 0) {
                                            Some((e, j23)) => {
                                                let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                if (at(s, j23).kind is Semicolon) {
                                                    if plain(s, j23 + 1) {
                                                        Some((m, j23 + 1))
                                                    } else { None }
                                                }
                                                else {
                                                    Some((m, j23))
                                                }
                                            },
                                            None => None,
                                        }
                                    } else { None }
                                }
                            }
                        }
                    } else { None }
                }
                else if (at(s, i + 1).kind is LiteralNumber) {
                    let n = at(s, i + 1).text;
                    if plain(s, i + 2) {
                        {
                            let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Literal(n)));
                            if (at(s, i + 2).kind is ParenOpen) {
                                match p_function_empty(s, i + 2) {
                                    Some((v, j25)) => {
                                        let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                        if (at(s, j25).kind is Semicolon) {
                                            if plain(s, j25 + 1) {
                                                Some((m, j25 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j25))
                                        }
                                    },
                                    None => None,
                                }
                            }
                            else {
                                if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                    match p_expr(s, i + 3, 0, 0) {
                                        Some((e, j26)) => {
                                            let m = nd(ClassMember::Literal { is_static, key, value: e });
                                            if (at(s, j26).kind is Semicolon) {
                                                if plain(s, j26 + 1) {
                                                    Some((m, j26 + 1))
                                                } else { None }
                                            }
                                            else {
                                                Some((m, j26))
                                            }
                                        },
                                        None => None,
                                    }
                                } else { None }
                            }
                        }
                    } else { None }
                }
                else if (at(s, i + 1).kind is LiteralBinary) {
                    let n = at(s, i + 1).text;
                    if plain(s, i + 2) {
                        {
                            let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Binary(n)));
                            if (at(s, i + 2).kind is ParenOpen) {
                                match p_function_empty(s, i + 2) {
                                    Some((v, j28)) => {
                                        let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                        if (at(s, j28).kind is Semicolon) {
                                            if plain(s, j28 + 1) {
                                                Some((m, j28 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j28))
                                        }
                                    },
                                    None => None,
                                }
                            }
                            else {
                                if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                    match p_expr(s, i + 3, 0, 0) {
                                        Some((e, j29)) => {
                                            let m = nd(ClassMember::Literal { is_static, key, value: e });
                                            if (at(s, j29).kind is Semicolon) {
                                                if plain(s, j29 + 1) {
                                                    Some((m, j29 + 1))
                                                } else { None }
                                            }
                                            else {
                                                Some((m, j29))
                                            }
                                        },
                                        None => None,
                                    }
                                } else { None }
                            }
                        }
                    } else { None }
                }
                else if (at(s, i + 1).kind is BracketOpen) {
                    if plain(s, i + 2) {
                        match p_expr(s, i + 2, -1, 0) {
                            Some((e, j30)) => if j30 >= i + 2 {
                                if at(s, j30).kind is BracketClose && plain(s, j30 + 1) {
                                    {
                                        let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Computed(e)));
                                        if (at(s, j30 + 1).kind is ParenOpen) {
                                            match p_function_empty(s, j30 + 1) {
                                                Some((v, j32)) => {
                                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                    if (at(s, j32).kind is Semicolon) {
                                                        if plain(s, j32 + 1) {
                                                            Some((m, j32 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j32))
                                                    }
                                                },
                                                None => None,
                                            }
                                        }
                                        else {
                                            if at(s, j30 + 1).kind is OperatorAssign && plain(s, j30 + 2) {
                                                match p_expr(s, j30 + 2, 0, 0) {
                                                    Some((e, j33)) => {
                                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                        if (at(s, j33).kind is Semicolon) {
                                                            if plain(s, j33 + 1) {
                                                                Some((m, j33 + 1))
                                                            } else { None }
                                                        }
                                                        else {
                                                            Some((m, j33))
                                                        }
                                                    },
                                                    None => None,
                                                }
                                            } else { None }
                                        }
                                    }
                                } else { None }
                            } else { None },
                            None => None,
                        }
                    } else { None }
                }
                else {
                    None
                }
            }
        } else { None } })
{
    reveal(p_member);
    reveal(p_function_empty);
    reveal(p_expr);
}
}
pub use vx_wf13::*;
pub mod vx_wf14 {
use super::*;
/// p_member, one step
pub proof fn u_member_0_3<'a>(s: Seq<Tok<'a>>, i: int)
    requires (at(s, i).kind is Static), !(is_word(at(s, i + 1).kind) && is_word(at(s, i + 2).kind)), !(is_word(at(s, i + 1).kind) && at(s, i + 2).kind is ParenOpen), !(is_word(at(s, i + 1).kind)), at(s, i + 1).kind is LiteralNumber
    ensures p_member(s, i) == ({
        if plain(s, i + 1) {
            let is_static = true;
            {
                let (is_static) = (is_static);
                if is_word(at(s, i + 1).kind) {
                    let label = at(s, i + 1).text;
                    if plain(s, i + 2) {
                        if is_word(at(s, i + 2).kind) {
                            let key = nd(PropertyKey::Literal(at(s, i + 2).text));
                            if plain(s, i + 3) {
                                if label == lit(7628135) {
                                    {
                                        let (is_static, kind, key) = (is_static, MethodKind::Get, key);
                                        if (at(s, i + 3).kind is ParenOpen) {
                                            match p_function_empty(s, i + 3) {
                                                Some((v, j16)) => {
                                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                    if (at(s, j16).kind is Semicolon) {
                                                        if plain(s, j16 + 1) {
                                                            Some((m, j16 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j16))
                                                    }
                                                },
                                                None => None,
                                            }
                                        }
                                        else {
                                            if at(s, i + 3).kind is OperatorAssign && plain(s, i + 4) {
                                                match p_expr(s, i + 4, 0, 0) {
                                                    Some((e, j17)) => {
                                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                        if (at(s, j17).kind is Semicolon) {
                                                            if plain(s, j17 + 1) {
                                                                Some((m, j17 + 1))
                                                            } else { None }
                                                        }
                                                        else {
                                                            Some((m, j17))
                                                        }
                                                    },
                                                    None => None,
                                                }
                                            } else { None }
                                        }
                                    }
                                }
                                else if label == lit(7628147) {
                                    {
                                        let (is_static, kind, key) = (is_static, MethodKind::Set, key);
                                        if (at(s, i + 3).kind is ParenOpen) {
                                            match p_function_empty(s, i + 3) {
                                                Some((v, j19)) => {
                                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                    if (at(s, j19).kind is Semicolon) {
                                                        if plain(s, j19 + 1) {
                                                            Some((m, j19 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j19))
                                                    }
                                                },
                                                None => None,
                                            }
                                        }
                                        else {
                                            if at(s, i + 3).kind is OperatorAssign && plain(s, i + 4) {
                                                match p_expr(s, i + 4, 0, 0) {
                                                    Some((e, j20)) => {
                                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                        if (at(s, j20).kind is Semicolon) {
                                                            if plain(s, j20 + 1) {
                                                                Some((m, j20 + 1))
                                                            } else { None }
                                                        }
                                                        else {
                                                            Some((m, j20))
                                                        }
                                                    },
                                                    None => None,
                                                }
                                            } else { None }
                                        }
                                    }
                                }
                                else {
                                    None
                                }
                            } else { None }
                        }
                        else {
                            let kind = if !is_static && label == lit(138343873104739033351614307) { MethodKind::Constructor } else { MethodKind::Method };
                            {
                                let (is_static, kind, key) = (is_static, kind, nd(PropertyKey::Literal(label)));
                                if (at(s, i + 2).kind is ParenOpen) {
                                    match p_function_empty(s, i + 2) {
                                        Some((v, j22)) => {
                                            let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                            if (at(s, j22).kind is Semicolon) {
                                                if plain(s, j22 + 1) {
                                                    Some((m, j22 + 1))
                                                } else { None }
                                            }
                                            else {
                                                Some((m, j22))
                                            }
                                        },
                                        None => None,
                                    }
                                }
                                else {
                                    if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                        match p_expr(s, i + 3, 0, 0) {
                                            Some((e, j23)) => {
                                                let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                if (at(s, j23).kind is Semicolon) {
                                                    if plain(s, j23 + 1) {
                                                        Some((m, j23 + 1))
                                                    } else { None }
                                                }
                                                else {
                                                    Some((m, j23))
                                                }
                                            },
                                            None => None,
                                        }
                                    } else { None }
                                }
                            }
                        }
                    } else { None }
                }
                else if (at(s, i + 1).kind is LiteralNumber) {
                    let n = at(s, i + 1).text;
                    if plain(s, i + 2) {
                        {
                            let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Literal(n)));
                            if (at(s, i + 2).kind is ParenOpen) {
                                match p_function_empty(s, i + 2) {
                                    Some((v, j25)) => {
                                        let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                        if (at(s, j25).kind is Semicolon) {
                                            if plain(s, j25 + 1) {
                                                Some((m, j25 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j25))
                                        }
                                    },
                                    None => None,
                                }
                            }
                            else {
                                if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                    match p_expr(s, i + 3, 0, 0) {
                                        Some((e, j26)) => {
                                            let m = nd(ClassMember::Literal { is_static, key, value: e });
                                            if (at(s, j26).kind is Semicolon) {
                                                if plain(s, j26 + 1) {
                                                    Some((m, j26 + 1))
                                                } else { None }
                                            }
                                            else {
                                                Some((m, j26))
                                            }
                                        },
                                        None => None,
                                    }
                                } else { None }
                            }
                        }
                    } else { None }
                }
                else if (at(s, i + 1).kind is LiteralBinary) {
                    let n = at(s, i + 1).text;
                    if plain(s, i + 2) {
                        {
                            let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Binary(n)));
                            if (at(s, i + 2).kind is ParenOpen) {
                                match p_function_empty(s, i + 2) {
                                    Some((v, j28)) => {
                                        let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                        if (at(s, j28).kind is Semicolon) {
                                            if plain(s, j28 + 1) {
                                                Some((m, j28 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j28))
                                        }
                                    },
                                    None => None,
                                }
                            }
                            else {
                                if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                    match p_expr(s, i + 3, 0, 0) {
                                        Some((e, j29)) => {
                                            let m = nd(ClassMember::Literal { is_static, key, value: e });
                                            if (at(s, j29).kind is Semicolon) {
                                                if plain(s, j29 + 1) {
                                                    Some((m, j29 + 1))
                                                } else { None }
                                            }
                                            else {
                                                Some((m, j29))
                                            }
                                        },
                                        None => None,
                                    }
                                } else { None }
                            }
                        }
                    } else { None }
                }
                else if (at(s, i + 1).kind is BracketOpen) {
                    if plain(s, i + 2) {
                        match p_expr(s, i + 2, -1, 0) {
                            Some((e, j30)) => if j30 >= i + 2 {
                                if at(s, j30).kind is BracketClose && plain(s, j30 + 1) {
                                    {
                                        let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Computed(e)));
                                        if (at(s, j30 + 1).kind is ParenOpen) {
                                            match p_function_empty(s, j30 + 1) {
                                                Some((v, j32)) => {
                                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                    if (at(s, j32).kind is Semicolon) {
                                                        if plain(s, j32 + 1) {
                                                            Some((m, j32 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j32))
                                                    }
                                                },
                                                None => None,
                                            }
                                        }
                                        else {
                                            if at(s, j30 + 1).kind is OperatorAssign && plain(s, j30 + 2) {
                                                match p_expr(s, j30 + 2, 0, 0) {
                                                    Some((e, j33)) => {
                                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                        if (at(s, j33).kind is Semicolon) {
                                                            if plain(s, j33 + 1) {
                                                                Some((m, j33 + 1))
                                                            } else { None }
                                                        }
                                                        else {
                                                            Some((m, j33))
                                                        }
                                                    },
                                                    None => None,
                                                }
                                            } else { None }
                                        }
                                    }
                                } else { None }
                            } else { None },
                            None => None,
                        }
                    } else { None }
                }
                else {
                    None
                }
            }
        } else { None } })
{
    reveal(p_member);
    reveal(p_function_empty);
    reveal(p_expr);
}
}
pub use vx_wf14::*;
pub mod vx_wf15 {
use super::*;
/// p_member, one step
pub proof fn u_member_0_4<'a>(s: Seq<Tok<'a>>, i: int)
    requires (at(s, i).kind is Static), !(is_word(at(s, i + 1).kind) && is_word(at(s, i + 2).kind)), !(is_word(at(s, i + 1).kind) && at(s, i + 2).kind is ParenOpen), !(is_word(at(s, i + 1).kind)), !(at(s, i + 1).kind is LiteralNumber), at(s, i + 1).kind is LiteralBinary
    ensures p_member(s, i) == ({
        if plain(s, i + 1) {
            let is_static = true;
            {
                let (is_static) = (is_static);
                if is_word(at(s, i + 1).kind) {
                    let label = at(s, i + 1).text;
                    if plain(s, i + 2) {
                        if is_word(at(s, i + 2).kind) {
                            let key = nd(PropertyKey::Literal(at(s, i + 2).text));
                            if plain(s, i + 3) {
                                if label == lit(7628135) {
                                    {
                                        let (is_static, kind, key) = (is_static, MethodKind::Get, key);
                                        if (at(s, i + 3).kind is ParenOpen) {
                                            match p_function_empty(s, i + 3) {
                                                Some((v, j16)) => {
                                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                    if (at(s, j16).kind is Semicolon) {
                                                        if plain(s, j16 + 1) {
                                                            Some((m, j16 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j16))
                                                    }
                                                },
                                                None => None,
                                            }
                                        }
                                        else {
                                            if at(s, i + 3).kind is OperatorAssign && plain(s, i + 4) {
                                                match p_expr(s, i + 4, 0, 0) {
                                                    Some((e, j17)) => {
                                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                        if (at(s, j17).kind is Semicolon) {
                                                            if plain(s, j17 + 1) {
                                                                Some((m, j17 + 1))
                                                            } else { None }
                                                        }
                                                        else {
                                                            Some((m, j17))
                                                        }
                                                    },
                                                    None => None,
                                                }
                                            } else { None }
                                        }
                                    }
                                }
                                else if label == lit(7628147) {
                                    {
                                        let (is_static, kind, key) = (is_static, MethodKind::Set, key);
                                        if (at(s, i + 3).kind is ParenOpen) {
                                            match p_function_empty(s, i + 3) {
                                                Some((v, j19)) => {
                                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                    if (at(s, j19).kind is Semicolon) {
                                                        if plain(s, j19 + 1) {
                                                            Some((m, j19 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j19))
                                                    }
                                                },
                                                None => None,
                                            }
                                        }
                                        else {
                                            if at(s, i + 3).kind is OperatorAssign && plain(s, i + 4) {
                                                match p_expr(s, i + 4, 0, 0) {
                                                    Some((e, j20)) => {
                                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                        if (at(s, j20).kind is Semicolon) {
                                                            if plain(s, j20 + 1) {
                                                                Some((m, j20 + 1))
                                                            } else { None }
                                                        }
                                                        else {
                                                            Some((m, j20))
                                                        }
                                                    },
                                                    None => None,
                                                }
                                            } else { None }
                                        }
                                    }
                                }
                                else {
                                    None
                                }
                            } else { None }
                        }
                        else {
                            let kind = if !is_static && label == lit(138343873104739033351614307) { MethodKind::Constructor } else { MethodKind::Method };
                            {
                                let (is_static, kind, key) = (is_static, kind, nd(PropertyKey::Literal(label)));
                                if (at(s, i + 2).kind is ParenOpen) {
                                    match p_function_empty(s, i + 2) {
                                        Some((v, j22)) => {
                                            let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                            if (at(s, j22).kind is Semicolon) {
                                                if plain(s, j22 + 1) {
                                                    Some((m, j22 + 1))
                                                } else { None }
                                            }
                                            else {
                                                Some((m, j22))
                                            }
                                        },
                                        None => None,
                                    }
                                }
                                else {
                                    if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                        match p_expr(s, i + 3, 0, 0) {
                                            Some((e, j23)) => {
                                                let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                if (at(s, j23).kind is Semicolon) {
                                                    if plain(s, j23 + 1) {
                                                        Some((m, j23 + 1))
                                                    } else { None }
                                                }
                                                else {
                                                    Some((m, j23))
                                                }
                                            },
                                            None => None,
                                        }
                                    } else { None }
                                }
                            }
                        }
                    } else { None }
                }
                else if (at(s, i + 1).kind is LiteralNumber) {
                    let n = at(s, i + 1).text;
                    if plain(s, i + 2) {
                        {
                            let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Literal(n)));
                            if (at(s, i + 2).kind is ParenOpen) {
                                match p_function_empty(s, i + 2) {
                                    Some((v, j25)) => {
                                        let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                        if (at(s, j25).kind is Semicolon) {
                                            if plain(s, j25 + 1) {
                                                Some((m, j25 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j25))
                                        }
                                    },
                                    None => None,
                                }
                            }
                            else {
                                if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                    match p_expr(s, i + 3, 0, 0) {
                                        Some((e, j26)) => {
                                            let m = nd(ClassMember::Literal { is_static, key, value: e });
                                            if (at(s, j26).kind is Semicolon) {
                                                if plain(s, j26 + 1) {
                                                    Some((m, j26 + 1))
                                                } else { None }
                                            }
                                            else {
                                                Some((m, j26))
                                            }
                                        },
                                        None => None,
                                    }
                                } else { None }
                            }
                        }
                    } else { None }
                }
                else if (at(s, i + 1).kind is LiteralBinary) {
                    let n = at(s, i + 1).text;
                    if plain(s, i + 2) {
                        {
                            let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Binary(n)));
                            if (at(s, i + 2).kind is ParenOpen) {
                                match p_function_empty(s, i + 2) {
                                    Some((v, j28)) => {
                                        let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                        if (at(s, j28).kind is Semicolon) {
                                            if plain(s, j28 + 1) {
                                                Some((m, j28 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j28))
                                        }
                                    },
                                    None => None,
                                }
                            }
                            else {
                                if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                    match p_expr(s, i + 3, 0, 0) {
                                        Some((e, j29)) => {
                                            let m = nd(ClassMember::Literal { is_static, key, value: e });
                                            if (at(s, j29).kind is Semicolon) {
                                                if plain(s, j29 + 1) {
                                                    Some((m, j29 + 1))
                                                } else { None }
                                            }
                                            else {
                                                Some((m, j29))
                                            }
                                        },
                                        None => None,
                                    }
                                } else { None }
                            }
                        }
                    } else { None }
                }
                else if (at(s, i + 1).kind is BracketOpen) {
                    if plain(s, i + 2) {
                        match p_expr(s, i + 2, -1, 0) {
                            Some((e, j30)) => if j30 >= i + 2 {
                                if at(s, j30).kind is BracketClose && plain(s, j30 + 1) {
                                    {
                                        let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Computed(e)));
                                        if (at(s, j30 + 1).kind is ParenOpen) {
                                            match p_function_empty(s, j30 + 1) {
                                                Some((v, j32)) => {
                                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                    if (at(s, j32).kind is Semicolon) {
                                                        if plain(s, j32 + 1) {
                                                            Some((m, j32 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j32))
                                                    }
                                                },
                                                None => None,
                                            }
                                        }
                                        else {
                                            if at(s, j30 + 1).kind is OperatorAssign && plain(s, j30 + 2) {
                                                match p_expr(s, j30 + 2, 0, 0) {
                                                    Some((e, j33)) => {
                                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                        if (at(s, j33).kind is Semicolon) {
                                                            if plain(s, j33 + 1) {
                                                                Some((m, j33 + 1))
                                                            } else { None }
                                                        }
                                                        else {
                                                            Some((m, j33))
                                                        }
                                                    },
                                                    None => None,
                                                }
                                            } else { None }
                                        }
                                    }
                                } else { None }
                            } else { None },
                            None => None,
                        }
                    } else { None }
                }
                else {
                    None
                }
            }
        } else { None } })
{
    reveal(p_member);
    reveal(p_function_empty);
    reveal(p_expr);
}
}
pub use vx_wf15::*;
pub mod vx_wf16 {
use super::*;
/// p_member, one step
pub proof fn u_member_0_5<'a>(s: Seq<Tok<'a>>, i: int)
    requires (at(s, i).kind is Static), !(is_word(at(s, i + 1).kind) && is_word(at(s, i + 2).kind)), !(is_word(at(s, i + 1).kind) && at(s, i + 2).kind is ParenOpen), !(is_word(at(s, i + 1).kind)), !(at(s, i + 1).kind is LiteralNumber), !(at(s, i + 1).kind is LiteralBinary)
    ensures p_member(s, i) == ({
        if plain(s, i + 1) {
            let is_static = true;
            {
                let (is_static) = (is_static);
                if is_word(at(s, i + 1).kind) {
                    let label = at(s, i + 1).text;
                    if plain(s, i + 2) {
                        if is_word(at(s, i + 2).kind) {
                            let key = nd(PropertyKey::Literal(at(s, i + 2).text));
                            if plain(s, i + 3) {
                                if label == lit(7628135) {
                                    {
                                        let (is_static, kind, key) = (is_static, MethodKind::Get, key);
                                        if (at(s, i + 3).kind is ParenOpen) {
                                            match p_function_empty(s, i + 3) {
                                                Some((v, j16)) => {
                                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                    if (at(s, j16).kind is Semicolon) {
                                                        if plain(s, j16 + 1) {
                                                            Some((m, j16 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j16))
                                                    }
                                                },
                                                None => None,
                                            }
                                        }
                                        else {
                                            if at(s, i + 3).kind is OperatorAssign && plain(s, i + 4) {
                                                match p_expr(s, i + 4, 0, 0) {
                                                    Some((e, j17)) => {
                                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                        if (at(s, j17).kind is Semicolon) {
                                                            if plain(s, j17 + 1) {
                                                                Some((m, j17 + 1))
                                                            } else { None }
                                                        }
                                                        else {
                                                            Some((m, j17))
                                                        }
                                                    },
                                                    None => None,
                                                }
                                            } else { None }
                                        }
                                    }
                                }
                                else if label == lit(7628147) {
                                    {
                                        let (is_static, kind, key) = (is_static, MethodKind::Set, key);
                                        if (at(s, i + 3).kind is ParenOpen) {
                                            match p_function_empty(s, i + 3) {
                                                Some((v, j19)) => {
                                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                    if (at(s, j19).kind is Semicolon) {
                                                        if plain(s, j19 + 1) {
                                                            Some((m, j19 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j19))
                                                    }
                                                },
                                                None => None,
                                            }
                                        }
                                        else {
                                            if at(s, i + 3).kind is OperatorAssign && plain(s, i + 4) {
                                                match p_expr(s, i + 4, 0, 0) {
                                                    Some((e, j20)) => {
                                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                        if (at(s, j20).kind is Semicolon) {
                                                            if plain(s, j20 + 1) {
                                                                Some((m, j20 + 1))
                                                            } else { None }
                                                        }
                                                        else {
                                                            Some((m, j20))
                                                        }
                                                    },
                                                    None => None,
                                                }
                                            } else { None }
                                        }
                                    }
                                }
                                else {
                                    None
                                }
                            } else { None }
                        }
                        else {
                            let kind = if !is_static && label == lit(138343873104739033351614307) { MethodKind::Constructor } else { MethodKind::Method };
                            {
                                let (is_static, kind, key) = (is_static, kind, nd(PropertyKey::Literal(label)));
                                if (at(s, i + 2).kind is ParenOpen) {
                                    match p_function_empty(s, i + 2) {
                                        Some((v, j22)) => {
                                            let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                            if (at(s, j22).kind is Semicolon) {
                                                if plain(s, j22 + 1) {
                                                    Some((m, j22 + 1))
                                                } else { None }
                                            }
                                            else {
                                                Some((m, j22))
                                            }
                                        },
                                        None => None,
                                    }
                                }
                                else {
                                    if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                        match p_expr(s, i + 3, 0, 0) {
                                            Some((e, j23)) => {
                                                let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                if (at(s, j23).kind is Semicolon) {
                                                    if plain(s, j23 + 1) {
                                                        Some((m, j23 + 1))
                                                    } else { None }
                                                }
                                                else {
                                                    Some((m, j23))
                                                }
                                            },
                                            None => None,
                                        }
                                    } else { None }
                                }
                            }
                        }
                    } else { None }
                }
                else if (at(s, i + 1).kind is LiteralNumber) {
                    let n = at(s, i + 1).text;
                    if plain(s, i + 2) {
                        {
                            let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Literal(n)));
                            if (at(s, i + 2).kind is ParenOpen) {
                                match p_function_empty(s, i + 2) {
                                    Some((v, j25)) => {
                                        let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                        if (at(s, j25).kind is Semicolon) {
                                            if plain(s, j25 + 1) {
                                                Some((m, j25 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j25))
                                        }
                                    },
                                    None => None,
                                }
                            }
                            else {
                                if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                    match p_expr(s, i + 3, 0, 0) {
                                        Some((e, j26)) => {
                                            let m = nd(ClassMember::Literal { is_static, key, value: e });
                                            if (at(s, j26).kind is Semicolon) {
                                                if plain(s, j26 + 1) {
                                                    Some((m, j26 + 1))
                                                } else { None }
                                            }
                                            else {
                                                Some((m, j26))
                                            }
                                        },
                                        None => None,
                                    }
                                } else { None }
                            }
                        }
                    } else { None }
                }
                else if (at(s, i + 1).kind is LiteralBinary) {
                    let n = at(s, i + 1).text;
                    if plain(s, i + 2) {
                        {
                            let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Binary(n)));
                            if (at(s, i + 2).kind is ParenOpen) {
                                match p_function_empty(s, i + 2) {
                                    Some((v, j28)) => {
                                        let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                        if (at(s, j28).kind is Semicolon) {
                                            if plain(s, j28 + 1) {
                                                Some((m, j28 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j28))
                                        }
                                    },
                                    None => None,
                                }
                            }
                            else {
                                if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                    match p_expr(s, i + 3, 0, 0) {
                                        Some((e, j29)) => {
                                            let m = nd(ClassMember::Literal { is_static, key, value: e });
                                            if (at(s, j29).kind is Semicolon) {
                                                if plain(s, j29 + 1) {
                                                    Some((m, j29 + 1))
                                                } else { None }
                                            }
                                            else {
                                                Some((m, j29))
                                            }
                                        },
                                        None => None,
                                    }
                                } else { None }
                            }
                        }
                    } else { None }
                }
                else if (at(s, i + 1).kind is BracketOpen) {
                    if plain(s, i + 2) {
                        match p_expr(s, i + 2, -1, 0) {
                            Some((e, j30)) => if j30 >= i + 2 {
                                if at(s, j30).kind is BracketClose && plain(s, j30 + 1) {
                                    {
                                        let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Computed(e)));
                                        if (at(s, j30 + 1).kind is ParenOpen) {
                                            match p_function_empty(s, j30 + 1) {
                                                Some((v, j32)) => {
                                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                    if (at(s, j32).kind is Semicolon) {
                                                        if plain(s, j32 + 1) {
                                                            Some((m, j32 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j32))
                                                    }
                                                },
                                                None => None,
                                            }
                                        }
                                        else {
                                            if at(s, j30 + 1).kind is OperatorAssign && plain(s, j30 + 2) {
                                                match p_expr(s, j30 + 2, 0, 0) {
                                                    Some((e, j33)) => {
                                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                        if (at(s, j33).kind is Semicolon) {
                                                            if plain(s, j33 + 1) {
                                                                Some((m, j33 + 1))
                                                            } else { None }
                                                        }
                                                        else {
                                                            Some((m, j33))
                                                        }
                                                    },
                                                    None => None,
                                                }
                                            } else { None }
                                        }
                                    }
                                } else { None }
                            } else { None },
                            None => None,
                        }
                    } else { None }
                }
                else {
                    None
                }
            }
        } else { None } })
{
    reveal(p_member);
    reveal(p_function_empty);
    reveal(p_expr);
}
}
pub use vx_wf16::*;
pub mod vx_wf17 {
use super::*;
/// p_member, one step
pub proof fn u_member_0<'a>(s: Seq<Tok<'a>>, i: int)
    requires (at(s, i).kind is Static)
    ensures p_member(s, i) == ({
        if plain(s, i + 1) {
            let is_static = true;
            {
                let (is_static) = (is_static);
                if is_word(at(s, i + 1).kind) {
                    let label = at(s, i + 1).text;
                    if plain(s, i + 2) {
                        if is_word(at(s, i + 2).kind) {
                            let key = nd(PropertyKey::Literal(at(s, i + 2).text));
                            if plain(s, i + 3) {
                                if label == lit(7628135) {
                                    {
                                        let (is_static, kind, key) = (is_static, MethodKind::Get, key);
                                        if (at(s, i + 3).kind is ParenOpen) {
                                            match p_function_empty(s, i + 3) {
                                                Some((v, j16)) => {
                                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                    if (at(s, j16).kind is Semicolon) {
                                                        if plain(s, j16 + 1) {
                                                            Some((m, j16 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j16))
                                                    }
                                                },
                                                None => None,
                                            }
                                        }
                                        else {
                                            if at(s, i + 3).kind is OperatorAssign && plain(s, i + 4) {
                                                match p_expr(s, i + 4, 0, 0) {
                                                    Some((e, j17)) => {
                                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                        if (at(s, j17).kind is Semicolon) {
                                                            if plain(s, j17 + 1) {
                                                                Some((m, j17 + 1))
                                                            } else { None }
                                                        }
                                                        else {
                                                            Some((m, j17))
                                                        }
                                                    },
                                                    None => None,
                                                }
                                            } else { None }
                                        }
                                    }
                                }
                                else if label == lit(7628147) {
                                    {
                                        let (is_static, kind, key) = (is_static, MethodKind::Set, key);
                                        if (at(s, i + 3).kind is ParenOpen) {
                                            match p_function_empty(s, i + 3) {
                                                Some((v, j19)) => {
                                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                    if (at(s, j19).kind is Semicolon) {
                                                        if plain(s, j19 + 1) {
                                                            Some((m, j19 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j19))
                                                    }
                                                },
                                                None => None,
                                            }
                                        }
                                        else {
                                            if at(s, i + 3).kind is OperatorAssign && plain(s, i + 4) {
                                                match p_expr(s, i + 4, 0, 0) {
                                                    Some((e, j20)) => {
                                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                        if (at(s, j20).kind is Semicolon) {
                                                            if plain(s, j20 + 1) {
                                                                Some((m, j20 + 1))
                                                            } else { None }
                                                        }
                                                        else {
                                                            Some((m, j20))
                                                        }
                                                    },
                                                    None => None,
                                                }
                                            } else { None }
                                        }
                                    }
                                }
                                else {
                                    None
                                }
                            } else { None }
                        }
                        else {
                            let kind = if !is_static && label == lit(138343873104739033351614307) { MethodKind::Constructor } else { MethodKind::Method };
                            {
                                let (is_static, kind, key) = (is_static, kind, nd(PropertyKey::Literal(label)));
                                if (at(s, i + 2).kind is ParenOpen) {
                                    match p_function_empty(s, i + 2) {
                                        Some((v, j22)) => {
                                            let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                            if (at(s, j22).kind is Semicolon) {
                                                if plain(s, j22 + 1) {
                                                    Some((m, j22 + 1))
                                                } else { None }
                                            }
                                            else {
                                                Some((m, j22))
                                            }
                                        },
                                        None => None,
                                    }
                                }
                                else {
                                    if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                        match p_expr(s, i + 3, 0, 0) {
                                            Some((e, j23)) => {
                                                let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                if (at(s, j23).kind is Semicolon) {
                                                    if plain(s, j23 + 1) {
                                                        Some((m, j23 + 1))
                                                    } else { None }
                                                }
                                                else {
                                                    Some((m, j23))
                                                }
                                            },
                                            None => None,
                                        }
                                    } else { None }
                                }
                            }
                        }
                    } else { None }
                }
                else if (at(s, i + 1).kind is LiteralNumber) {
                    let n = at(s, i + 1).text;
                    if plain(s, i + 2) {
                        {
                            let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Literal(n)));
                            if (at(s, i + 2).kind is ParenOpen) {
                                match p_function_empty(s, i + 2) {
                                    Some((v, j25)) => {
                                        let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                        if (at(s, j25).kind is Semicolon) {
                                            if plain(s, j25 + 1) {
                                                Some((m, j25 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j25))
                                        }
                                    },
                                    None => None,
                                }
                            }
                            else {
                                if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                    match p_expr(s, i + 3, 0, 0) {
                                        Some((e, j26)) => {
                                            let m = nd(ClassMember::Literal { is_static, key, value: e });
                                            if (at(s, j26).kind is Semicolon) {
                                                if plain(s, j26 + 1) {
                                                    Some((m, j26 + 1))
                                                } else { None }
                                            }
                                            else {
                                                Some((m, j26))
                                            }
                                        },
                                        None => None,
                                    }
                                } else { None }
                            }
                        }
                    } else { None }
                }
                else if (at(s, i + 1).kind is LiteralBinary) {
                    let n = at(s, i + 1).text;
                    if plain(s, i + 2) {
                        {
                            let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Binary(n)));
                            if (at(s, i + 2).kind is ParenOpen) {
                                match p_function_empty(s, i + 2) {
                                    Some((v, j28)) => {
                                        let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                        if (at(s, j28).kind is Semicolon) {
                                            if plain(s, j28 + 1) {
                                                Some((m, j28 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j28))
                                        }
                                    },
                                    None => None,
                                }
                            }
                            else {
                                if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                    match p_expr(s, i + 3, 0, 0) {
                                        Some((e, j29)) => {
                                            let m = nd(ClassMember::Literal { is_static, key, value: e });
                                            if (at(s, j29).kind is Semicolon) {
                                                if plain(s, j29 + 1) {
                                                    Some((m, j29 + 1))
                                                } else { None }
                                            }
                                            else {
                                                Some((m, j29))
                                            }
                                        },
                                        None => None,
                                    }
                                } else { None }
                            }
                        }
                    } else { None }
                }
                else if (at(s, i + 1).kind is BracketOpen) {
                    if plain(s, i + 2) {
                        match p_expr(s, i + 2, -1, 0) {
                            Some((e, j30)) => if j30 >= i + 2 {
                                if at(s, j30).kind is BracketClose && plain(s, j30 + 1) {
                                    {
                                        let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Computed(e)));
                                        if (at(s, j30 + 1).kind is ParenOpen) {
                                            match p_function_empty(s, j30 + 1) {
                                                Some((v, j32)) => {
                                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                    if (at(s, j32).kind is Semicolon) {
                                                        if plain(s, j32 + 1) {
                                                            Some((m, j32 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j32))
                                                    }
                                                },
                                                None => None,
                                            }
                                        }
                                        else {
                                            if at(s, j30 + 1).kind is OperatorAssign && plain(s, j30 + 2) {
                                                match p_expr(s, j30 + 2, 0, 0) {
                                                    Some((e, j33)) => {
                                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                        if (at(s, j33).kind is Semicolon) {
                                                            if plain(s, j33 + 1) {
                                                                Some((m, j33 + 1))
                                                            } else { None }
                                                        }
                                                        else {
                                                            Some((m, j33))
                                                        }
                                                    },
                                                    None => None,
                                                }
                                            } else { None }
                                        }
                                    }
                                } else { None }
                            } else { None },
                            None => None,
                        }
                    } else { None }
                }
                else {
                    None
                }
            }
        } else { None } })
{
    if is_word(at(s, i + 1).kind) && is_word(at(s, i + 2).kind) { u_member_0_0(s, i); }
    else if is_word(at(s, i + 1).kind) && at(s, i + 2).kind is ParenOpen { u_member_0_1(s, i); }
    else if is_word(at(s, i + 1).kind) { u_member_0_2(s, i); }
    else if at(s, i + 1).kind is LiteralNumber { u_member_0_3(s, i); }
    else if at(s, i + 1).kind is LiteralBinary { u_member_0_4(s, i); }
    else { u_member_0_5(s, i); }
}
}
pub use vx_wf17::*;
pub mod vx_wf18 {
use super::*;
pub proof fn w_member_0<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_member(s, i) is Some, (at(s, i).kind is Static)
    ensures ({ let x = (p_member(s, i)->0).0; wf_member(*x.item) })
    decreases rem(s, i), 29int, 0int
{
    u_member_0(s, i);
    if plain(s, i + 1) {
        let is_static = true;
        let (is_static) = (is_static);
        if is_word(at(s, i + 1).kind) {
            let label = at(s, i + 1).text;
            if plain(s, i + 2) {
                if is_word(at(s, i + 2).kind) {
                    let key = nd(PropertyKey::Literal(at(s, i + 2).text));
                    assert(wf_key(*key.item));
                    if plain(s, i + 3) {
                        if label == lit(7628135) {
                            let (is_static, kind, key) = (is_static, MethodKind::Get, key);
                            if (at(s, i + 3).kind is ParenOpen) {
                                if let Some((v, j1)) = p_function_empty(s, i + 3) {
                                    w_function_empty(s, i + 3);
                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                    assert(wf_member(*m.item));
                                    if (at(s, j1).kind is Semicolon) {
                                        if plain(s, j1 + 1) {
                                            assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                                        }
                                    }
                                    else {
                                        assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                                    }
                                }
                            }
                            else {
                                if at(s, i + 3).kind is OperatorAssign && plain(s, i + 4) {
                                    if let Some((e, j2)) = p_expr(s, i + 4, 0, 0) {
                                        w_expr(s, i + 4, 0, 0);
                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                        assert(wf_member(*m.item));
                                        if (at(s, j2).kind is Semicolon) {
                                            if plain(s, j2 + 1) {
                                                assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                                            }
                                        }
                                        else {
                                            assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                                        }
                                    }
                                }
                            }
                        }
                        else if label == lit(7628147) {
                            let (is_static, kind, key) = (is_static, MethodKind::Set, key);
                            if (at(s, i + 3).kind is ParenOpen) {
                                if let Some((v, j3)) = p_function_empty(s, i + 3) {
                                    w_function_empty(s, i + 3);
                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                    assert(wf_member(*m.item));
                                    if (at(s, j3).kind is Semicolon) {
                                        if plain(s, j3 + 1) {
                                            assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                                        }
                                    }
                                    else {
                                        assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                                    }
                                }
                            }
                            else {
                                if at(s, i + 3).kind is OperatorAssign && plain(s, i + 4) {
                                    if let Some((e, j4)) = p_expr(s, i + 4, 0, 0) {
                                        w_expr(s, i + 4, 0, 0);
                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                        assert(wf_member(*m.item));
                                        if (at(s, j4).kind is Semicolon) {
                                            if plain(s, j4 + 1) {
                                                assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                                            }
                                        }
                                        else {
                                            assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                                        }
                                    }
                                }
                            }
                        }
                        else {
                        }
                    }
                }
                else {
                    let kind = if !is_static && label == lit(138343873104739033351614307) { MethodKind::Constructor } else { MethodKind::Method };
                    let (is_static, kind, key) = (is_static, kind, nd(PropertyKey::Literal(label)));
                    if (at(s, i + 2).kind is ParenOpen) {
                        if let Some((v, j5)) = p_function_empty(s, i + 2) {
                            w_function_empty(s, i + 2);
                            let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                            assert(wf_member(*m.item));
                            if (at(s, j5).kind is Semicolon) {
                                if plain(s, j5 + 1) {
                                    assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                                }
                            }
                            else {
                                assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                            }
                        }
                    }
                    else {
                        if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                            if let Some((e, j6)) = p_expr(s, i + 3, 0, 0) {
                                w_expr(s, i + 3, 0, 0);
                                let m = nd(ClassMember::Literal { is_static, key, value: e });
                                assert(wf_member(*m.item));
                                if (at(s, j6).kind is Semicolon) {
                                    if plain(s, j6 + 1) {
                                        assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                                    }
                                }
                                else {
                                    assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                                }
                            }
                        }
                    }
                }
            }
        }
        else if (at(s, i + 1).kind is LiteralNumber) {
            let n = at(s, i + 1).text;
            if plain(s, i + 2) {
                let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Literal(n)));
                if (at(s, i + 2).kind is ParenOpen) {
                    if let Some((v, j7)) = p_function_empty(s, i + 2) {
                        w_function_empty(s, i + 2);
                        let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                        assert(wf_member(*m.item));
                        if (at(s, j7).kind is Semicolon) {
                            if plain(s, j7 + 1) {
                                assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                            }
                        }
                        else {
                            assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                        }
                    }
                }
                else {
                    if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                        if let Some((e, j8)) = p_expr(s, i + 3, 0, 0) {
                            w_expr(s, i + 3, 0, 0);
                            let m = nd(ClassMember::Literal { is_static, key, value: e });
                            assert(wf_member(*m.item));
                            if (at(s, j8).kind is Semicolon) {
                                if plain(s, j8 + 1) {
                                    assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                                }
                            }
                            else {
                                assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                            }
                        }
                    }
                }
            }
        }
        else if (at(s, i + 1).kind is LiteralBinary) {
            let n = at(s, i + 1).text;
            if plain(s, i + 2) {
                let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Binary(n)));
                if (at(s, i + 2).kind is ParenOpen) {
                    if let Some((v, j9)) = p_function_empty(s, i + 2) {
                        w_function_empty(s, i + 2);
                        let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                        assert(wf_member(*m.item));
                        if (at(s, j9).kind is Semicolon) {
                            if plain(s, j9 + 1) {
                                assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                            }
                        }
                        else {
                            assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                        }
                    }
                }
                else {
                    if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                        if let Some((e, j10)) = p_expr(s, i + 3, 0, 0) {
                            w_expr(s, i + 3, 0, 0);
                            let m = nd(ClassMember::Literal { is_static, key, value: e });
                            assert(wf_member(*m.item));
                            if (at(s, j10).kind is Semicolon) {
                                if plain(s, j10 + 1) {
                                    assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                                }
                            }
                            else {
                                assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                            }
                        }
                    }
                }
            }
        }
        else if (at(s, i + 1).kind is BracketOpen) {
            if plain(s, i + 2) {
                if let Some((e, j11)) = p_expr(s, i + 2, -1, 0) {
                    if j11 >= i + 2 {
                        w_expr(s, i + 2, -1, 0);
                        if at(s, j11).kind is BracketClose && plain(s, j11 + 1) {
                            let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Computed(e)));
                            if (at(s, j11 + 1).kind is ParenOpen) {
                                if let Some((v, j12)) = p_function_empty(s, j11 + 1) {
                                    w_function_empty(s, j11 + 1);
                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                    assert(wf_member(*m.item));
                                    if (at(s, j12).kind is Semicolon) {
                                        if plain(s, j12 + 1) {
                                            assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                                        }
                                    }
                                    else {
                                        assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                                    }
                                }
                            }
                            else {
                                if at(s, j11 + 1).kind is OperatorAssign && plain(s, j11 + 2) {
                                    if let Some((e, j13)) = p_expr(s, j11 + 2, 0, 0) {
                                        w_expr(s, j11 + 2, 0, 0);
                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                        assert(wf_member(*m.item));
                                        if (at(s, j13).kind is Semicolon) {
                                            if plain(s, j13 + 1) {
                                                assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                                            }
                                        }
                                        else {
                                            assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        else {
        }
    }
}
}
pub use vx_wf18::*;
pub mod vx_wf19 {
use super::*;
/// p_member, one step
pub proof fn u_member_1_0<'a>(s: Seq<Tok<'a>>, i: int)
    requires !((at(s, i).kind is Static)), is_word(at(s, i).kind) && is_word(at(s, i + 1).kind)
    ensures p_member(s, i) == ({
        let is_static = false;
        {
            let (is_static) = (is_static);
            if is_word(at(s, i).kind) {
                let label = at(s, i).text;
                if plain(s, i + 1) {
                    if is_word(at(s, i + 1).kind) {
                        let key = nd(PropertyKey::Literal(at(s, i + 1).text));
                        if plain(s, i + 2) {
                            if label == lit(7628135) {
                                {
                                    let (is_static, kind, key) = (is_static, MethodKind::Get, key);
                                    if (at(s, i + 2).kind is ParenOpen) {
                                        match p_function_empty(s, i + 2) {
                                            Some((v, j49)) => {
                                                let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                if (at(s, j49).kind is Semicolon) {
                                                    if plain(s, j49 + 1) {
                                                        Some((m, j49 + 1))
                                                    } else { None }
                                                }
                                                else {
                                                    Some((m, j49))
                                                }
                                            },
                                            None => None,
                                        }
                                    }
                                    else {
                                        if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                            match p_expr(s, i + 3, 0, 0) {
                                                Some((e, j50)) => {
                                                    let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                    if (at(s, j50).kind is Semicolon) {
                                                        if plain(s, j50 + 1) {
                                                            Some((m, j50 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j50))
                                                    }
                                                },
                                                None => None,
                                            }
                                        } else { None }
                                    }
                                }
                            }
                            else if label == lit(7628147) {
                                {
                                    let (is_static, kind, key) = (is_static, MethodKind::Set, key);
                                    if (at(s, i + 2).kind is ParenOpen) {
                                        match p_function_empty(s, i + 2) {
                                            Some((v, j52)) => {
                                                let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                if (at(s, j52).kind is Semicolon) {
                                                    if plain(s, j52 + 1) {
                                                        Some((m, j52 + 1))
                                                    } else { None }
                                                }
                                                else {
                                                    Some((m, j52))
                                                }
                                            },
                                            None => None,
                                        }
                                    }
                                    else {
                                        if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                            match p_expr(s, i + 3, 0, 0) {
                                                Some((e, j53)) => {
                                                    let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                    if (at(s, j53).kind is Semicolon) {
                                                        if plain(s, j53 + 1) {
                                                            Some((m, j53 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j53))
                                                    }
                                                },
                                                None => None,
                                            }
                                        } else { None }
                                    }
                                }
                            }
                            else {
                                None
                            }
                        } else { None }
                    }
                    else {
                        let kind = if !is_static && label == lit(138343873104739033351614307) { MethodKind::Constructor } else { MethodKind::Method };
                        {
                            let (is_static, kind, key) = (is_static, kind, nd(PropertyKey::Literal(label)));
                            if (at(s, i + 1).kind is ParenOpen) {
                                match p_function_empty(s, i + 1) {
                                    Some((v, j55)) => {
                                        let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                        if (at(s, j55).kind is Semicolon) {
                                            if plain(s, j55 + 1) {
                                                Some((m, j55 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j55))
                                        }
                                    },
                                    None => None,
                                }
                            }
                            else {
                                if at(s, i + 1).kind is OperatorAssign && plain(s, i + 2) {
                                    match p_expr(s, i + 2, 0, 0) {
                                        Some((e, j56)) => {
                                            let m = nd(ClassMember::Literal { is_static, key, value: e });
                                            if (at(s, j56).kind is Semicolon) {
                                                if plain(s, j56 + 1) {
                                                    Some((m, j56 + 1))
                                                } else { None }
                                            }
                                            else {
                                                Some((m, j56))
                                            }
                                        },
                                        None => None,
                                    }
                                } else { None }
                            }
                        }
                    }
                } else { None }
            }
            else if (at(s, i).kind is LiteralNumber) {
                let n = at(s, i).text;
                if plain(s, i + 1) {
                    {
                        let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Literal(n)));
                        if (at(s, i + 1).kind is ParenOpen) {
                            match p_function_empty(s, i + 1) {
                                Some((v, j58)) => {
                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                    if (at(s, j58).kind is Semicolon) {
                                        if plain(s, j58 + 1) {
                                            Some((m, j58 + 1))
                                        } else { None }
                                    }
                                    else {
                                        Some((m, j58))
                                    }
                                },
                                None => None,
                            }
                        }
                        else {
                            if at(s, i + 1).kind is OperatorAssign && plain(s, i + 2) {
                                match p_expr(s, i + 2, 0, 0) {
                                    Some((e, j59)) => {
                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                        if (at(s, j59).kind is Semicolon) {
                                            if plain(s, j59 + 1) {
                                                Some((m, j59 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j59))
                                        }
                                    },
                                    None => None,
                                }
                            } else { None }
                        }
                    }
                } else { None }
            }
            else if (at(s, i).kind is LiteralBinary) {
                let n = at(s, i).text;
                if plain(s, i + 1) {
                    {
                        let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Binary(n)));
                        if (at(s, i + 1).kind is ParenOpen) {
                            match p_function_empty(s, i + 1) {
                                Some((v, j61)) => {
                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                    if (at(s, j61).kind is Semicolon) {
                                        if plain(s, j61 + 1) {
                                            Some((m, j61 + 1))
                                        } else { None }
                                    }
                                    else {
                                        Some((m, j61))
                                    }
                                },
                                None => None,
                            }
                        }
                        else {
                            if at(s, i + 1).kind is OperatorAssign && plain(s, i + 2) {
                                match p_expr(s, i + 2, 0, 0) {
                                    Some((e, j62)) => {
                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                        if (at(s, j62).kind is Semicolon) {
                                            if plain(s, j62 + 1) {
                                                Some((m, j62 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j62))
                                        }
                                    },
                                    None => None,
                                }
                            } else { None }
                        }
                    }
                } else { None }
            }
            else if (at(s, i).kind is BracketOpen) {
                if plain(s, i + 1) {
                    match p_expr(s, i + 1, -1, 0) {
                        Some((e, j63)) => if j63 >= i + 1 {
                            if at(s, j63).kind is BracketClose && plain(s, j63 + 1) {
                                {
                                    let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Computed(e)));
                                    if (at(s, j63 + 1).kind is ParenOpen) {
                                        match p_function_empty(s, j63 + 1) {
                                            Some((v, j65)) => {
                                                let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                if (at(s, j65).kind is Semicolon) {
                                                    if plain(s, j65 + 1) {
                                                        Some((m, j65 + 1))
                                                    } else { None }
                                                }
                                                else {
                                                    Some((m, j65))
                                                }
                                            },
                                            None => None,
                                        }
                                    }
                                    else {
                                        if at(s, j63 + 1).kind is OperatorAssign && plain(s, j63 + 2) {
                                            match p_expr(s, j63 + 2, 0, 0) {
                                                Some((e, j66)) => {
                                                    let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                    if (at(s, j66).kind is Semicolon) {
                                                        if plain(s, j66 + 1) {
                                                            Some((m, j66 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j66))
                                                    }
                                                },
                                                None => None,
                                            }
                                        } else { None }
                                    }
                                }
                            } else { None }
                        } else { None },
                        None => None,
                    }
                } else { None }
            }
            else {
                None
            }
        } })
{
    reveal(p_member);
    reveal(p_function_empty);
    reveal(p_expr);
}
}
pub use vx_wf19::*;
pub mod vx_wf20 {
use super::*;
/// p_member, one step
pub proof fn u_member_1_1<'a>(s: Seq<Tok<'a>>, i: int)
    requires !((at(s, i).kind is Static)), !(is_word(at(s, i).kind) && is_word(at(s, i + 1).kind)), is_word(at(s, i).kind) && at(s, i + 1).kind is ParenOpen
    ensures p_member(s, i) == ({
        let is_static = false;
        {
            let (is_static) = (is_static);
            if is_word(at(s, i).kind) {
                let label = at(s, i).text;
                if plain(s, i + 1) {
                    if is_word(at(s, i + 1).kind) {
                        let key = nd(PropertyKey::Literal(at(s, i + 1).text));
                        if plain(s, i + 2) {
                            if label == lit(7628135) {
                                {
                                    let (is_static, kind, key) = (is_static, MethodKind::Get, key);
                                    if (at(s, i + 2).kind is ParenOpen) {
                                        match p_function_empty(s, i + 2) {
                                            Some((v, j49)) => {
                                                let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                if (at(s, j49).kind is Semicolon) {
                                                    if plain(s, j49 + 1) {
                                                        Some((m, j49 + 1))
                                                    } else { None }
                                                }
                                                else {
                                                    Some((m, j49))
                                                }
                                            },
                                            None => None,
                                        }
                                    }
                                    else {
                                        if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                            match p_expr(s, i + 3, 0, 0) {
                                                Some((e, j50)) => {
                                                    let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                    if (at(s, j50).kind is Semicolon) {
                                                        if plain(s, j50 + 1) {
                                                            Some((m, j50 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j50))
                                                    }
                                                },
                                                None => None,
                                            }
                                        } else { None }
                                    }
                                }
                            }
                            else if label == lit(7628147) {
                                {
                                    let (is_static, kind, key) = (is_static, MethodKind::Set, key);
                                    if (at(s, i + 2).kind is ParenOpen) {
                                        match p_function_empty(s, i + 2) {
                                            Some((v, j52)) => {
                                                let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                if (at(s, j52).kind is Semicolon) {
                                                    if plain(s, j52 + 1) {
                                                        Some((m, j52 + 1))
                                                    } else { None }
                                                }
                                                else {
                                                    Some((m, j52))
                                                }
                                            },
                                            None => None,
                                        }
                                    }
                                    else {
                                        if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                            match p_expr(s, i + 3, 0, 0) {
                                                Some((e, j53)) => {
                                                    let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                    if (at(s, j53).kind is Semicolon) {
                                                        if plain(s, j53 + 1) {
                                                            Some((m, j53 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j53))
                                                    }
                                                },
                                                None => None,
                                            }
                                        } else { None }
                                    }
                                }
                            }
                            else {
                                None
                            }
                        } else { None }
                    }
                    else {
                        let kind = if !is_static && label == lit(138343873104739033351614307) { MethodKind::Constructor } else { MethodKind::Method };
                        {
                            let (is_static, kind, key) = (is_static, kind, nd(PropertyKey::Literal(label)));
                            if (at(s, i + 1).kind is ParenOpen) {
                                match p_function_empty(s, i + 1) {
                                    Some((v, j55)) => {
                                        let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                        if (at(s, j55).kind is Semicolon) {
                                            if plain(s, j55 + 1) {
                                                Some((m, j55 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j55))
                                        }
                                    },
                                    None => None,
                                }
                            }
                            else {
                                if at(s, i + 1).kind is OperatorAssign && plain(s, i + 2) {
                                    match p_expr(s, i + 2, 0, 0) {
                                        Some((e, j56)) => {
                                            let m = nd(ClassMember::Literal { is_static, key, value: e });
                                            if (at(s, j56).kind is Semicolon) {
                                                if plain(s, j56 + 1) {
                                                    Some((m, j56 + 1))
                                                } else { None }
                                            }
                                            else {
                                                Some((m, j56))
                                            }
                                        },
                                        None => None,
                                    }
                                } else { None }
                            }
                        }
                    }
                } else { None }
            }
            else if (at(s, i).kind is LiteralNumber) {
                let n = at(s, i).text;
                if plain(s, i + 1) {
                    {
                        let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Literal(n)));
                        if (at(s, i + 1).kind is ParenOpen) {
                            match p_function_empty(s, i + 1) {
                                Some((v, j58)) => {
                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                    if (at(s, j58).kind is Semicolon) {
                                        if plain(s, j58 + 1) {
                                            Some((m, j58 + 1))
                                        } else { None }
                                    }
                                    else {
                                        Some((m, j58))
                                    }
                                },
                                None => None,
                            }
                        }
                        else {
                            if at(s, i + 1).kind is OperatorAssign && plain(s, i + 2) {
                                match p_expr(s, i + 2, 0, 0) {
                                    Some((e, j59)) => {
                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                        if (at(s, j59).kind is Semicolon) {
                                            if plain(s, j59 + 1) {
                                                Some((m, j59 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j59))
                                        }
                                    },
                                    None => None,
                                }
                            } else { None }
                        }
                    }
                } else { None }
            }
            else if (at(s, i).kind is LiteralBinary) {
                let n = at(s, i).text;
                if plain(s, i + 1) {
                    {
                        let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Binary(n)));
                        if (at(s, i + 1).kind is ParenOpen) {
                            match p_function_empty(s, i + 1) {
                                Some((v, j61)) => {
                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                    if (at(s, j61).kind is Semicolon) {
                                        if plain(s, j61 + 1) {
                                            Some((m, j61 + 1))
                                        } else { None }
                                    }
                                    else {
                                        Some((m, j61))
                                    }
                                },
                                None => None,
                            }
                        }
                        else {
                            if at(s, i + 1).kind is OperatorAssign && plain(s, i + 2) {
                                match p_expr(s, i + 2, 0, 0) {
                                    Some((e, j62)) => {
                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                        if (at(s, j62).kind is Semicolon) {
                                            if plain(s, j62 + 1) {
                                                Some((m, j62 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j62))
                                        }
                                    },
                                    None => None,
                                }
                            } else { None }
                        }
                    }
                } else { None }
            }
            else if (at(s, i).kind is BracketOpen) {
                if plain(s, i + 1) {
                    match p_expr(s, i + 1, -1, 0) {
                        Some((e, j63)) => if j63 >= i + 1 {
                            if at(s, j63).kind is BracketClose && plain(s, j63 + 1) {
                                {
                                    let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Computed(e)));
                                    if (at(s, j63 + 1).kind is ParenOpen) {
                                        match p_function_empty(s, j63 + 1) {
                                            Some((v, j65)) => {
                                                let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                if (at(s, j65).kind is Semicolon) {
                                                    if plain(s, j65 + 1) {
                                                        Some((m, j65 + 1))
                                                    } else { None }
                                                }
                                                else {
                                                    Some((m, j65))
                                                }
                                            },
                                            None => None,
                                        }
                                    }
                                    else {
                                        if at(s, j63 + 1).kind is OperatorAssign && plain(s, j63 + 2) {
                                            match p_expr(s, j63 + 2, 0, 0) {
                                                Some((e, j66)) => {
                                                    let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                    if (at(s, j66).kind is Semicolon) {
                                                        if plain(s, j66 + 1) {
                                                            Some((m, j66 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j66))
                                                    }
                                                },
                                                None => None,
                                            }
                                        } else { None }
                                    }
                                }
                            } else { None }
                        } else { None },
                        None => None,
                    }
                } else { None }
            }
            else {
                None
            }
        } })
{
    reveal(p_member);
    reveal(p_function_empty);
    reveal(p_expr);
}
}
pub use vx_wf20::*;
pub mod vx_wf21 {
use super::*;
/// p_member, one step
pub proof fn u_member_1_2<'a>(s: Seq<Tok<'a>>, i: int)
    requires !((at(s, i).kind is Static)), !(is_word(at(s, i).kind) && is_word(at(s, i + 1).kind)), !(is_word(at(s, i).kind) && at(s, i + 1).kind is ParenOpen), is_word(at(s, i).kind)
    ensures p_member(s, i) == ({
        let is_static = false;
        {
            let (is_static) = (is_static);
            if is_word(at(s, i).kind) {
                let label = at(s, i).text;
                if plain(s, i + 1) {
                    if is_word(at(s, i + 1).kind) {
                        let key = nd(PropertyKey::Literal(at(s, i + 1).text));
                        if plain(s, i + 2) {
                            if label == lit(7628135) {
                                {
                                    let (is_static, kind, key) = (is_static, MethodKind::Get, key);
                                    if (at(s, i + 2).kind is ParenOpen) {
                                        match p_function_empty(s, i + 2) {
                                            Some((v, j49)) => {
                                                let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                if (at(s, j49).kind is Semicolon) {
                                                    if plain(s, j49 + 1) {
                                                        Some((m, j49 + 1))
                                                    } else { None }
                                                }
                                                else {
                                                    Some((m, j49))
                                                }
                                            },
                                            None => None,
                                        }
                                    }
                                    else {
                                        if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                            match p_expr(s, i + 3, 0, 0) {
                                                Some((e, j50)) => {
                                                    let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                    if (at(s, j50).kind is Semicolon) {
                                                        if plain(s, j50 + 1) {
                                                            Some((m, j50 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j50))
                                                    }
                                                },
                                                None => None,
                                            }
                                        } else { None }
                                    }
                                }
                            }
                            else if label == lit(7628147) {
                                {
                                    let (is_static, kind, key) = (is_static, MethodKind::Set, key);
                                    if (at(s, i + 2).kind is ParenOpen) {
                                        match p_function_empty(s, i + 2) {
                                            Some((v, j52)) => {
                                                let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                if (at(s, j52).kind is Semicolon) {
                                                    if plain(s, j52 + 1) {
                                                        Some((m, j52 + 1))
                                                    } else { None }
                                                }
                                                else {
                                                    Some((m, j52))
                                                }
                                            },
                                            None => None,
                                        }
                                    }
                                    else {
                                        if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                            match p_expr(s, i + 3, 0, 0) {
                                                Some((e, j53)) => {
                                                    let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                    if (at(s, j53).kind is Semicolon) {
                                                        if plain(s, j53 + 1) {
                                                            Some((m, j53 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j53))
                                                    }
                                                },
                                                None => None,
                                            }
                                        } else { None }
                                    }
                                }
                            }
                            else {
                                None
                            }
                        } else { None }
                    }
                    else {
                        let kind = if !is_static && label == lit(138343873104739033351614307) { MethodKind::Constructor } else { MethodKind::Method };
                        {
                            let (is_static, kind, key) = (is_static, kind, nd(PropertyKey::Literal(label)));
                            if (at(s, i + 1).kind is ParenOpen) {
                                match p_function_empty(s, i + 1) {
                                    Some((v, j55)) => {
                                        let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                        if (at(s, j55).kind is Semicolon) {
                                            if plain(s, j55 + 1) {
                                                Some((m, j55 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j55))
                                        }
                                    },
                                    None => None,
                                }
                            }
                            else {
                                if at(s, i + 1).kind is OperatorAssign && plain(s, i + 2) {
                                    match p_expr(s, i + 2, 0, 0) {
                                        Some((e, j56)) => {
                                            let m = nd(ClassMember::Literal { is_static, key, value: e });
                                            if (at(s, j56).kind is Semicolon) {
                                                if plain(s, j56 + 1) {
                                                    Some((m, j56 + 1))
                                                } else { None }
                                            }
                                            else {
                                                Some((m, j56))
                                            }
                                        },
                                        None => None,
                                    }
                                } else { None }
                            }
                        }
                    }
                } else { None }
            }
            else if (at(s, i).kind is LiteralNumber) {
                let n = at(s, i).text;
                if plain(s, i + 1) {
                    {
                        let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Literal(n)));
                        if (at(s, i + 1).kind is ParenOpen) {
                            match p_function_empty(s, i + 1) {
                                Some((v, j58)) => {
                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                    if (at(s, j58).kind is Semicolon) {
                                        if plain(s, j58 + 1) {
                                            Some((m, j58 + 1))
                                        } else { None }
                                    }
                                    else {
                                        Some((m, j58))
                                    }
                                },
                                None => None,
                            }
                        }
                        else {
                            if at(s, i + 1).kind is OperatorAssign && plain(s, i + 2) {
                                match p_expr(s, i + 2, 0, 0) {
                                    Some((e, j59)) => {
                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                        if (at(s, j59).kind is Semicolon) {
                                            if plain(s, j59 + 1) {
                                                Some((m, j59 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j59))
                                        }
                                    },
                                    None => None,
                                }
                            } else { None }
                        }
                    }
                } else { None }
            }
            else if (at(s, i).kind is LiteralBinary) {
                let n = at(s, i).text;
                if plain(s, i + 1) {
                    {
                        let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Binary(n)));
                        if (at(s, i + 1).kind is ParenOpen) {
                            match p_function_empty(s, i + 1) {
                                Some((v, j61)) => {
                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                    if (at(s, j61).kind is Semicolon) {
                                        if plain(s, j61 + 1) {
                                            Some((m, j61 + 1))
                                        } else { None }
                                    }
                                    else {
                                        Some((m, j61))
                                    }
                                },
                                None => None,
                            }
                        }
                        else {
                            if at(s, i + 1).kind is OperatorAssign && plain(s, i + 2) {
                                match p_expr(s, i + 2, 0, 0) {
                                    Some((e, j62)) => {
                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                        if (at(s, j62).kind is Semicolon) {
                                            if plain(s, j62 + 1) {
                                                Some((m, j62 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j62))
                                        }
                                    },
                                    None => None,
                                }
                            } else { None }
                        }
                    }
                } else { None }
            }
            else if (at(s, i).kind is BracketOpen) {
                if plain(s, i + 1) {
                    match p_expr(s, i + 1, -1, 0) {
                        Some((e, j63)) => if j63 >= i + 1 {
                            if at(s, j63).kind is BracketClose && plain(s, j63 + 1) {
                                {
                                    let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Computed(e)));
                                    if (at(s, j63 + 1).kind is ParenOpen) {
                                        match p_function_empty(s, j63 + 1) {
                                            Some((v, j65)) => {
                                                let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                if (at(s, j65).kind is Semicolon) {
                                                    if plain(s, j65 + 1) {
                                                        Some((m, j65 + 1))
                                                    } else { None }
                                                }
                                                else {
                                                    Some((m, j65))
                                                }
                                            },
                                            None => None,
                                        }
                                    }
                                    else {
                                        if at(s, j63 + 1).kind is OperatorAssign && plain(s, j63 + 2) {
                                            match p_expr(s, j63 + 2, 0, 0) {
                                                Some((e, j66)) => {
                                                    let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                    if (at(s, j66).kind is Semicolon) {
                                                        if plain(s, j66 + 1) {
                                                            Some((m, j66 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j66))
                                                    }
                                                },
                                                None => None,
                                            }
                                        } else { None }
                                    }
                                }
                            } else { None }
                        } else { None },
                        None => None,
                    }
                } else { None }
            }
            else {
                None
            }
        } })
{
    reveal(p_member);
    reveal(p_function_empty);
    reveal(p_expr);
}
}
pub use vx_wf21::*;
pub mod vx_wf22 {
use super::*;
/// p_member, one step
pub proof fn u_member_1_3<'a>(s: Seq<Tok<'a>>, i: int)
    requires !((at(s, i).kind is Static)), !(is_word(at(s, i).kind) && is_word(at(s, i + 1).kind)), !(is_word(at(s, i).kind) && at(s, i + 1).kind is ParenOpen), !(is_word(at(s, i).kind)), at(s, i).kind is LiteralNumber
    ensures p_member(s, i) == ({
        let is_static = false;
        {
            let (is_static) = (is_static);
            if is_word(at(s, i).kind) {
                let label = at(s, i).text;
                if plain(s, i + 1) {
                    if is_word(at(s, i + 1).kind) {
                        let key = nd(PropertyKey::Literal(at(s, i + 1).text));
                        if plain(s, i + 2) {
                            if label == lit(7628135) {
                                {
                                    let (is_static, kind, key) = (is_static, MethodKind::Get, key);
                                    if (at(s, i + 2).kind is ParenOpen) {
                                        match p_function_empty(s, i + 2) {
                                            Some((v, j49)) => {
                                                let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                if (at(s, j49).kind is Semicolon) {
                                                    if plain(s, j49 + 1) {
                                                        Some((m, j49 + 1))
                                                    } else { None }
                                                }
                                                else {
                                                    Some((m, j49))
                                                }
                                            },
                                            None => None,
                                        }
                                    }
                                    else {
                                        if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                            match p_expr(s, i + 3, 0, 0) {
                                                Some((e, j50)) => {
                                                    let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                    if (at(s, j50).kind is Semicolon) {
                                                        if plain(s, j50 + 1) {
                                                            Some((m, j50 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j50))
                                                    }
                                                },
                                                None => None,
                                            }
                                        } else { None }
                                    }
                                }
                            }
                            else if label == lit(7628147) {
                                {
                                    let (is_static, kind, key) = (is_static, MethodKind::Set, key);
                                    if (at(s, i + 2).kind is ParenOpen) {
                                        match p_function_empty(s, i + 2) {
                                            Some((v, j52)) => {
                                                let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                if (at(s, j52).kind is Semicolon) {
                                                    if plain(s, j52 + 1) {
                                                        Some((m, j52 + 1))
                                                    } else { None }
                                                }
                                                else {
                                                    Some((m, j52))
                                                }
                                            },
                                            None => None,
                                        }
                                    }
                                    else {
                                        if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                            match p_expr(s, i + 3, 0, 0) {
                                                Some((e, j53)) => {
                                                    let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                    if (at(s, j53).kind is Semicolon) {
                                                        if plain(s, j53 + 1) {
                                                            Some((m, j53 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j53))
                                                    }
                                                },
                                                None => None,
                                            }
                                        } else { None }
                                    }
                                }
                            }
                            else {
                                None
                            }
                        } else { None }
                    }
                    else {
                        let kind = if !is_static && label == lit(138343873104739033351614307) { MethodKind::Constructor } else { MethodKind::Method };
                        {
                            let (is_static, kind, key) = (is_static, kind, nd(PropertyKey::Literal(label)));
                            if (at(s, i + 1).kind is ParenOpen) {
                                match p_function_empty(s, i + 1) {
                                    Some((v, j55)) => {
                                        let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                        if (at(s, j55).kind is Semicolon) {
                                            if plain(s, j55 + 1) {
                                                Some((m, j55 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j55))
                                        }
                                    },
                                    None => None,
                                }
                            }
                            else {
                                if at(s, i + 1).kind is OperatorAssign && plain(s, i + 2) {
                                    match p_expr(s, i + 2, 0, 0) {
                                        Some((e, j56)) => {
                                            let m = nd(ClassMember::Literal { is_static, key, value: e });
                                            if (at(s, j56).kind is Semicolon) {
                                                if plain(s, j56 + 1) {
                                                    Some((m, j56 + 1))
                                                } else { None }
                                            }
                                            else {
                                                Some((m, j56))
                                            }
                                        },
                                        None => None,
                                    }
                                } else { None }
                            }
                        }
                    }
                } else { None }
            }
            else if (at(s, i).kind is LiteralNumber) {
                let n = at(s, i).text;
                if plain(s, i + 1) {
                    {
                        let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Literal(n)));
                        if (at(s, i + 1).kind is ParenOpen) {
                            match p_function_empty(s, i + 1) {
                                Some((v, j58)) => {
                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                    if (at(s, j58).kind is Semicolon) {
                                        if plain(s, j58 + 1) {
                                            Some((m, j58 + 1))
                                        } else { None }
                                    }
                                    else {
                                        Some((m, j58))
                                    }
                                },
                                None => None,
                            }
                        }
                        else {
                            if at(s, i + 1).kind is OperatorAssign && plain(s, i + 2) {
                                match p_expr(s, i + 2, 0, 0) {
                                    Some((e, j59)) => {
                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                        if (at(s, j59).kind is Semicolon) {
                                            if plain(s, j59 + 1) {
                                                Some((m, j59 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j59))
                                        }
                                    },
                                    None => None,
                                }
                            } else { None }
                        }
                    }
                } else { None }
            }
            else if (at(s, i).kind is LiteralBinary) {
                let n = at(s, i).text;
                if plain(s, i + 1) {
                    {
                        let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Binary(n)));
                        if (at(s, i + 1).kind is ParenOpen) {
                            match p_function_empty(s, i + 1) {
                                Some((v, j61)) => {
                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                    if (at(s, j61).kind is Semicolon) {
                                        if plain(s, j61 + 1) {
                                            Some((m, j61 + 1))
                                        } else { None }
                                    }
                                    else {
                                        Some((m, j61))
                                    }
                                },
                                None => None,
                            }
                        }
                        else {
                            if at(s, i + 1).kind is OperatorAssign && plain(s, i + 2) {
                                match p_expr(s, i + 2, 0, 0) {
                                    Some((e, j62)) => {
                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                        if (at(s, j62).kind is Semicolon) {
                                            if plain(s, j62 + 1) {
                                                Some((m, j62 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j62))
                                        }
                                    },
                                    None => None,
                                }
                            } else { None }
                        }
                    }
                } else { None }
            }
            else if (at(s, i).kind is BracketOpen) {
                if plain(s, i + 1) {
                    match p_expr(s, i + 1, -1, 0) {
                        Some((e, j63)) => if j63 >= i + 1 {
                            if at(s, j63).kind is BracketClose && plain(s, j63 + 1) {
                                {
                                    let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Computed(e)));
                                    if (at(s, j63 + 1).kind is ParenOpen) {
                                        match p_function_empty(s, j63 + 1) {
                                            Some((v, j65)) => {
                                                let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                if (at(s, j65).kind is Semicolon) {
                                                    if plain(s, j65 + 1) {
                                                        Some((m, j65 + 1))
                                                    } else { None }
                                                }
                                                else {
                                                    Some((m, j65))
                                                }
                                            },
                                            None => None,
                                        }
                                    }
                                    else {
                                        if at(s, j63 + 1).kind is OperatorAssign && plain(s, j63 + 2) {
                                            match p_expr(s, j63 + 2, 0, 0) {
                                                Some((e, j66)) => {
                                                    let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                    if (at(s, j66).kind is Semicolon) {
                                                        if plain(s, j66 + 1) {
                                                            Some((m, j66 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j66))
                                                    }
                                                },
                                                None => None,
                                            }
                                        } else { None }
                                    }
                                }
                            } else { None }
                        } else { None },
                        None => None,
                    }
                } else { None }
            }
            else {
                None
            }
        } })
{
    reveal(p_member);
    reveal(p_function_empty);
    reveal(p_expr);
}
}
pub use vx_wf22::*;
pub mod vx_wf23 {
use super::*;
/// p_member, one step
pub proof fn u_member_1_4<'a>(s: Seq<Tok<'a>>, i: int)
    requires !((at(s, i).kind is Static)), !(is_word(at(s, i).kind) && is_word(at(s, i + 1).kind)), !(is_word(at(s, i).kind) && at(s, i + 1).kind is ParenOpen), !(is_word(at(s, i).kind)), !(at(s, i).kind is LiteralNumber), at(s, i).kind is LiteralBinary
    ensures p_member(s, i) == ({
        let is_static = false;
        {
            let (is_static) = (is_static);
            if is_word(at(s, i).kind) {
                let label = at(s, i).text;
                if plain(s, i + 1) {
                    if is_word(at(s, i + 1).kind) {
                        let key = nd(PropertyKey::Literal(at(s, i + 1).text));
                        if plain(s, i + 2) {
                            if label == lit(7628135) {
                                {
                                    let (is_static, kind, key) = (is_static, MethodKind::Get, key);
                                    if (at(s, i + 2).kind is ParenOpen) {
                                        match p_function_empty(s, i + 2) {
                                            Some((v, j49)) => {
                                                let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                if (at(s, j49).kind is Semicolon) {
                                                    if plain(s, j49 + 1) {
                                                        Some((m, j49 + 1))
                                                    } else { None }
                                                }
                                                else {
                                                    Some((m, j49))
                                                }
                                            },
                                            None => None,
                                        }
                                    }
                                    else {
                                        if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                            match p_expr(s, i + 3, 0, 0) {
                                                Some((e, j50)) => {
                                                    let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                    if (at(s, j50).kind is Semicolon) {
                                                        if plain(s, j50 + 1) {
                                                            Some((m, j50 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j50))
                                                    }
                                                },
                                                None => None,
                                            }
                                        } else { None }
                                    }
                                }
                            }
                            else if label == lit(7628147) {
                                {
                                    let (is_static, kind, key) = (is_static, MethodKind::Set, key);
                                    if (at(s, i + 2).kind is ParenOpen) {
                                        match p_function_empty(s, i + 2) {
                                            Some((v, j52)) => {
                                                let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                if (at(s, j52).kind is Semicolon) {
                                                    if plain(s, j52 + 1) {
                                                        Some((m, j52 + 1))
                                                    } else { None }
                                                }
                                                else {
                                                    Some((m, j52))
                                                }
                                            },
                                            None => None,
                                        }
                                    }
                                    else {
                                        if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                            match p_expr(s, i + 3, 0, 0) {
                                                Some((e, j53)) => {
                                                    let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                    if (at(s, j53).kind is Semicolon) {
                                                        if plain(s, j53 + 1) {
                                                            Some((m, j53 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j53))
                                                    }
                                                },
                                                None => None,
                                            }
                                        } else { None }
                                    }
                                }
                            }
                            else {
                                None
                            }
                        } else { None }
                    }
                    else {
                        let kind = if !is_static && label == lit(138343873104739033351614307) { MethodKind::Constructor } else { MethodKind::Method };
                        {
                            let (is_static, kind, key) = (is_static, kind, nd(PropertyKey::Literal(label)));
                            if (at(s, i + 1).kind is ParenOpen) {
                                match p_function_empty(s, i + 1) {
                                    Some((v, j55)) => {
                                        let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                        if (at(s, j55).kind is Semicolon) {
                                            if plain(s, j55 + 1) {
                                                Some((m, j55 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j55))
                                        }
                                    },
                                    None => None,
                                }
                            }
                            else {
                                if at(s, i + 1).kind is OperatorAssign && plain(s, i + 2) {
                                    match p_expr(s, i + 2, 0, 0) {
                                        Some((e, j56)) => {
                                            let m = nd(ClassMember::Literal { is_static, key, value: e });
                                            if (at(s, j56).kind is Semicolon) {
                                                if plain(s, j56 + 1) {
                                                    Some((m, j56 + 1))
                                                } else { None }
                                            }
                                            else {
                                                Some((m, j56))
                                            }
                                        },
                                        None => None,
                                    }
                                } else { None }
                            }
                        }
                    }
                } else { None }
            }
            else if (at(s, i).kind is LiteralNumber) {
                let n = at(s, i).text;
                if plain(s, i + 1) {
                    {
                        let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Literal(n)));
                        if (at(s, i + 1).kind is ParenOpen) {
                            match p_function_empty(s, i + 1) {
                                Some((v, j58)) => {
                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                    if (at(s, j58).kind is Semicolon) {
                                        if plain(s, j58 + 1) {
                                            Some((m, j58 + 1))
                                        } else { None }
                                    }
                                    else {
                                        Some((m, j58))
                                    }
                                },
                                None => None,
                            }
                        }
                        else {
                            if at(s, i + 1).kind is OperatorAssign && plain(s, i + 2) {
                                match p_expr(s, i + 2, 0, 0) {
                                    Some((e, j59)) => {
                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                        if (at(s, j59).kind is Semicolon) {
                                            if plain(s, j59 + 1) {
                                                Some((m, j59 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j59))
                                        }
                                    },
                                    None => None,
                                }
                            } else { None }
                        }
                    }
                } else { None }
            }
            else if (at(s, i).kind is LiteralBinary) {
                let n = at(s, i).text;
                if plain(s, i + 1) {
                    {
                        let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Binary(n)));
                        if (at(s, i + 1).kind is ParenOpen) {
                            match p_function_empty(s, i + 1) {
                                Some((v, j61)) => {
                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                    if (at(s, j61).kind is Semicolon) {
                                        if plain(s, j61 + 1) {
                                            Some((m, j61 + 1))
                                        } else { None }
                                    }
                                    else {
                                        Some((m, j61))
                                    }
                                },
                                None => None,
                            }
                        }
                        else {
                            if at(s, i + 1).kind is OperatorAssign && plain(s, i + 2) {
                                match p_expr(s, i + 2, 0, 0) {
                                    Some((e, j62)) => {
                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                        if (at(s, j62).kind is Semicolon) {
                                            if plain(s, j62 + 1) {
                                                Some((m, j62 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j62))
                                        }
                                    },
                                    None => None,
                                }
                            } else { None }
                        }
                    }
                } else { None }
            }
            else if (at(s, i).kind is BracketOpen) {
                if plain(s, i + 1) {
                    match p_expr(s, i + 1, -1, 0) {
                        Some((e, j63)) => if j63 >= i + 1 {
                            if at(s, j63).kind is BracketClose && plain(s, j63 + 1) {
                                {
                                    let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Computed(e)));
                                    if (at(s, j63 + 1).kind is ParenOpen) {
                                        match p_function_empty(s, j63 + 1) {
                                            Some((v, j65)) => {
                                                let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                if (at(s, j65).kind is Semicolon) {
                                                    if plain(s, j65 + 1) {
                                                        Some((m, j65 + 1))
                                                    } else { None }
                                                }
                                                else {
                                                    Some((m, j65))
                                                }
                                            },
                                            None => None,
                                        }
                                    }
                                    else {
                                        if at(s, j63 + 1).kind is OperatorAssign && plain(s, j63 + 2) {
                                            match p_expr(s, j63 + 2, 0, 0) {
                                                Some((e, j66)) => {
                                                    let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                    if (at(s, j66).kind is Semicolon) {
                                                        if plain(s, j66 + 1) {
                                                            Some((m, j66 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j66))
                                                    }
                                                },
                                                None => None,
                                            }
                                        } else { None }
                                    }
                                }
                            } else { None }
                        } else { None },
                        None => None,
                    }
                } else { None }
            }
            else {
                None
            }
        } })
{
    reveal(p_member);
    reveal(p_function_empty);
    reveal(p_expr);
}
}
pub use vx_wf23::*;
pub mod vx_wf24 {
use super::*;
/// p_member, one step
pub proof fn u_member_1_5<'a>(s: Seq<Tok<'a>>, i: int)
    requires !((at(s, i).kind is Static)), !(is_word(at(s, i).kind) && is_word(at(s, i + 1).kind)), !(is_word(at(s, i).kind) && at(s, i + 1).kind is ParenOpen), !(is_word(at(s, i).kind)), !(at(s, i).kind is LiteralNumber), !(at(s, i).kind is LiteralBinary)
    ensures p_member(s, i) == ({
        let is_static = false;
        {
            let (is_static) = (is_static);
            if is_word(at(s, i).kind) {
                let label = at(s, i).text;
                if plain(s, i + 1) {
                    if is_word(at(s, i + 1).kind) {
                        let key = nd(PropertyKey::Literal(at(s, i + 1).text));
                        if plain(s, i + 2) {
                            if label == lit(7628135) {
                                {
                                    let (is_static, kind, key) = (is_static, MethodKind::Get, key);
                                    if (at(s, i + 2).kind is ParenOpen) {
                                        match p_function_empty(s, i + 2) {
                                            Some((v, j49)) => {
                                                let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                if (at(s, j49).kind is Semicolon) {
                                                    if plain(s, j49 + 1) {
                                                        Some((m, j49 + 1))
                                                    } else { None }
                                                }
                                                else {
                                                    Some((m, j49))
                                                }
                                            },
                                            None => None,
                                        }
                                    }
                                    else {
                                        if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                            match p_expr(s, i + 3, 0, 0) {
                                                Some((e, j50)) => {
                                                    let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                    if (at(s, j50).kind is Semicolon) {
                                                        if plain(s, j50 + 1) {
                                                            Some((m, j50 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j50))
                                                    }
                                                },
                                                None => None,
                                            }
                                        } else { None }
                                    }
                                }
                            }
                            else if label == lit(7628147) {
                                {
                                    let (is_static, kind, key) = (is_static, MethodKind::Set, key);
                                    if (at(s, i + 2).kind is ParenOpen) {
                                        match p_function_empty(s, i + 2) {
                                            Some((v, j52)) => {
                                                let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                if (at(s, j52).kind is Semicolon) {
                                                    if plain(s, j52 + 1) {
                                                        Some((m, j52 + 1))
                                                    } else { None }
                                                }
                                                else {
                                                    Some((m, j52))
                                                }
                                            },
                                            None => None,
                                        }
                                    }
                                    else {
                                        if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                            match p_expr(s, i + 3, 0, 0) {
                                                Some((e, j53)) => {
                                                    let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                    if (at(s, j53).kind is Semicolon) {
                                                        if plain(s, j53 + 1) {
                                                            Some((m, j53 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j53))
                                                    }
                                                },
                                                None => None,
                                            }
                                        } else { None }
                                    }
                                }
                            }
                            else {
                                None
                            }
                        } else { None }
                    }
                    else {
                        let kind = if !is_static && label == lit(138343873104739033351614307) { MethodKind::Constructor } else { MethodKind::Method };
                        {
                            let (is_static, kind, key) = (is_static, kind, nd(PropertyKey::Literal(label)));
                            if (at(s, i + 1).kind is ParenOpen) {
                                match p_function_empty(s, i + 1) {
                                    Some((v, j55)) => {
                                        let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                        if (at(s, j55).kind is Semicolon) {
                                            if plain(s, j55 + 1) {
                                                Some((m, j55 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j55))
                                        }
                                    },
                                    None => None,
                                }
                            }
                            else {
                                if at(s, i + 1).kind is OperatorAssign && plain(s, i + 2) {
                                    match p_expr(s, i + 2, 0, 0) {
                                        Some((e, j56)) => {
                                            let m = nd(ClassMember::Literal { is_static, key, value: e });
                                            if (at(s, j56).kind is Semicolon) {
                                                if plain(s, j56 + 1) {
                                                    Some((m, j56 + 1))
                                                } else { None }
                                            }
                                            else {
                                                Some((m, j56))
                                            }
                                        },
                                        None => None,
                                    }
                                } else { None }
                            }
                        }
                    }
                } else { None }
            }
            else if (at(s, i).kind is LiteralNumber) {
                let n = at(s, i).text;
                if plain(s, i + 1) {
                    {
                        let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Literal(n)));
                        if (at(s, i + 1).kind is ParenOpen) {
                            match p_function_empty(s, i + 1) {
                                Some((v, j58)) => {
                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                    if (at(s, j58).kind is Semicolon) {
                                        if plain(s, j58 + 1) {
                                            Some((m, j58 + 1))
                                        } else { None }
                                    }
                                    else {
                                        Some((m, j58))
                                    }
                                },
                                None => None,
                            }
                        }
                        else {
                            if at(s, i + 1).kind is OperatorAssign && plain(s, i + 2) {
                                match p_expr(s, i + 2, 0, 0) {
                                    Some((e, j59)) => {
                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                        if (at(s, j59).kind is Semicolon) {
                                            if plain(s, j59 + 1) {
                                                Some((m, j59 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j59))
                                        }
                                    },
                                    None => None,
                                }
                            } else { None }
                        }
                    }
                } else { None }
            }
            else if (at(s, i).kind is LiteralBinary) {
                let n = at(s, i).text;
                if plain(s, i + 1) {
                    {
                        let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Binary(n)));
                        if (at(s, i + 1).kind is ParenOpen) {
                            match p_function_empty(s, i + 1) {
                                Some((v, j61)) => {
                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                    if (at(s, j61).kind is Semicolon) {
                                        if plain(s, j61 + 1) {
                                            Some((m, j61 + 1))
                                        } else { None }
                                    }
                                    else {
                                        Some((m, j61))
                                    }
                                },
                                None => None,
                            }
                        }
                        else {
                            if at(s, i + 1).kind is OperatorAssign && plain(s, i + 2) {
                                match p_expr(s, i + 2, 0, 0) {
                                    Some((e, j62)) => {
                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                        if (at(s, j62).kind is Semicolon) {
                                            if plain(s, j62 + 1) {
                                                Some((m, j62 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j62))
                                        }
                                    },
                                    None => None,
                                }
                            } else { None }
                        }
                    }
                } else { None }
            }
            else if (at(s, i).kind is BracketOpen) {
                if plain(s, i + 1) {
                    match p_expr(s, i + 1, -1, 0) {
                        Some((e, j63)) => if j63 >= i + 1 {
                            if at(s, j63).kind is BracketClose && plain(s, j63 + 1) {
                                {
                                    let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Computed(e)));
                                    if (at(s, j63 + 1).kind is ParenOpen) {
                                        match p_function_empty(s, j63 + 1) {
                                            Some((v, j65)) => {
                                                let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                if (at(s, j65).kind is Semicolon) {
                                                    if plain(s, j65 + 1) {
                                                        Some((m, j65 + 1))
                                                    } else { None }
                                                }
                                                else {
                                                    Some((m, j65))
                                                }
                                            },
                                            None => None,
                                        }
                                    }
                                    else {
                                        if at(s, j63 + 1).kind is OperatorAssign && plain(s, j63 + 2) {
                                            match p_expr(s, j63 + 2, 0, 0) {
                                                Some((e, j66)) => {
                                                    let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                    if (at(s, j66).kind is Semicolon) {
                                                        if plain(s, j66 + 1) {
                                                            Some((m, j66 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j66))
                                                    }
                                                },
                                                None => None,
                                            }
                                        } else { None }
                                    }
                                }
                            } else { None }
                        } else { None },
                        None => None,
                    }
                } else { None }
            }
            else {
                None
            }
        } })
{
    reveal(p_member);
    reveal(p_function_empty);
    reveal(p_expr);
}
}
pub use vx_wf24::*;
pub mod vx_wf25 {
use super::*;
/// p_member, one step
pub proof fn u_member_1<'a>(s: Seq<Tok<'a>>, i: int)
    requires !((at(s, i).kind is Static))
    ensures p_member(s, i) == ({
        let is_static = false;
        {
            let (is_static) = (is_static);
            if is_word(at(s, i).kind) {
                let label = at(s, i).text;
                if plain(s, i + 1) {
                    if is_word(at(s, i + 1).kind) {
                        let key = nd(PropertyKey::Literal(at(s, i + 1).text));
                        if plain(s, i + 2) {
                            if label == lit(7628135) {
                                {
                                    let (is_static, kind, key) = (is_static, MethodKind::Get, key);
                                    if (at(s, i + 2).kind is ParenOpen) {
                                        match p_function_empty(s, i + 2) {
                                            Some((v, j49)) => {
                                                let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                if (at(s, j49).kind is Semicolon) {
                                                    if plain(s, j49 + 1) {
                                                        Some((m, j49 + 1))
                                                    } else { None }
                                                }
                                                else {
                                                    Some((m, j49))
                                                }
                                            },
                                            None => None,
                                        }
                                    }
                                    else {
                                        if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                            match p_expr(s, i + 3, 0, 0) {
                                                Some((e, j50)) => {
                                                    let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                    if (at(s, j50).kind is Semicolon) {
                                                        if plain(s, j50 + 1) {
                                                            Some((m, j50 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j50))
                                                    }
                                                },
                                                None => None,
                                            }
                                        } else { None }
                                    }
                                }
                            }
                            else if label == lit(7628147) {
                                {
                                    let (is_static, kind, key) = (is_static, MethodKind::Set, key);
                                    if (at(s, i + 2).kind is ParenOpen) {
                                        match p_function_empty(s, i + 2) {
                                            Some((v, j52)) => {
                                                let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                if (at(s, j52).kind is Semicolon) {
                                                    if plain(s, j52 + 1) {
                                                        Some((m, j52 + 1))
                                                    } else { None }
                                                }
                                                else {
                                                    Some((m, j52))
                                                }
                                            },
                                            None => None,
                                        }
                                    }
                                    else {
                                        if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                            match p_expr(s, i + 3, 0, 0) {
                                                Some((e, j53)) => {
                                                    let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                    if (at(s, j53).kind is Semicolon) {
                                                        if plain(s, j53 + 1) {
                                                            Some((m, j53 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j53))
                                                    }
                                                },
                                                None => None,
                                            }
                                        } else { None }
                                    }
                                }
                            }
                            else {
                                None
                            }
                        } else { None }
                    }
                    else {
                        let kind = if !is_static && label == lit(138343873104739033351614307) { MethodKind::Constructor } else { MethodKind::Method };
                        {
                            let (is_static, kind, key) = (is_static, kind, nd(PropertyKey::Literal(label)));
                            if (at(s, i + 1).kind is ParenOpen) {
                                match p_function_empty(s, i + 1) {
                                    Some((v, j55)) => {
                                        let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                        if (at(s, j55).kind is Semicolon) {
                                            if plain(s, j55 + 1) {
                                                Some((m, j55 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j55))
                                        }
                                    },
                                    None => None,
                                }
                            }
                            else {
                                if at(s, i + 1).kind is OperatorAssign && plain(s, i + 2) {
                                    match p_expr(s, i + 2, 0, 0) {
                                        Some((e, j56)) => {
                                            let m = nd(ClassMember::Literal { is_static, key, value: e });
                                            if (at(s, j56).kind is Semicolon) {
                                                if plain(s, j56 + 1) {
                                                    Some((m, j56 + 1))
                                                } else { None }
                                            }
                                            else {
                                                Some((m, j56))
                                            }
                                        },
                                        None => None,
                                    }
                                } else { None }
                            }
                        }
                    }
                } else { None }
            }
            else if (at(s, i).kind is LiteralNumber) {
                let n = at(s, i).text;
                if plain(s, i + 1) {
                    {
                        let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Literal(n)));
                        if (at(s, i + 1).kind is ParenOpen) {
                            match p_function_empty(s, i + 1) {
                                Some((v, j58)) => {
                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                    if (at(s, j58).kind is Semicolon) {
                                        if plain(s, j58 + 1) {
                                            Some((m, j58 + 1))
                                        } else { None }
                                    }
                                    else {
                                        Some((m, j58))
                                    }
                                },
                                None => None,
                            }
                        }
                        else {
                            if at(s, i + 1).kind is OperatorAssign && plain(s, i + 2) {
                                match p_expr(s, i + 2, 0, 0) {
                                    Some((e, j59)) => {
                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                        if (at(s, j59).kind is Semicolon) {
                                            if plain(s, j59 + 1) {
                                                Some((m, j59 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j59))
                                        }
                                    },
                                    None => None,
                                }
                            } else { None }
                        }
                    }
                } else { None }
            }
            else if (at(s, i).kind is LiteralBinary) {
                let n = at(s, i).text;
                if plain(s, i + 1) {
                    {
                        let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Binary(n)));
                        if (at(s, i + 1).kind is ParenOpen) {
                            match p_function_empty(s, i + 1) {
                                Some((v, j61)) => {
                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                    if (at(s, j61).kind is Semicolon) {
                                        if plain(s, j61 + 1) {
                                            Some((m, j61 + 1))
                                        } else { None }
                                    }
                                    else {
                                        Some((m, j61))
                                    }
                                },
                                None => None,
                            }
                        }
                        else {
                            if at(s, i + 1).kind is OperatorAssign && plain(s, i + 2) {
                                match p_expr(s, i + 2, 0, 0) {
                                    Some((e, j62)) => {
                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                        if (at(s, j62).kind is Semicolon) {
                                            if plain(s, j62 + 1) {
                                                Some((m, j62 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j62))
                                        }
                                    },
                                    None => None,
                                }
                            } else { None }
                        }
                    }
                } else { None }
            }
            else if (at(s, i).kind is BracketOpen) {
                if plain(s, i + 1) {
                    match p_expr(s, i + 1, -1, 0) {
                        Some((e, j63)) => if j63 >= i + 1 {
                            if at(s, j63).kind is BracketClose && plain(s, j63 + 1) {
                                {
                                    let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Computed(e)));
                                    if (at(s, j63 + 1).kind is ParenOpen) {
                                        match p_function_empty(s, j63 + 1) {
                                            Some((v, j65)) => {
                                                let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                if (at(s, j65).kind is Semicolon) {
                                                    if plain(s, j65 + 1) {
                                                        Some((m, j65 + 1))
                                                    } else { None }
                                                }
                                                else {
                                                    Some((m, j65))
                                                }
                                            },
                                            None => None,
                                        }
                                    }
                                    else {
                                        if at(s, j63 + 1).kind is OperatorAssign && plain(s, j63 + 2) {
                                            match p_expr(s, j63 + 2, 0, 0) {
                                                Some((e, j66)) => {
                                                    let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                    if (at(s, j66).kind is Semicolon) {
                                                        if plain(s, j66 + 1) {
                                                            Some((m, j66 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j66))
                                                    }
                                                },
                                                None => None,
                                            }
                                        } else { None }
                                    }
                                }
                            } else { None }
                        } else { None },
                        None => None,
                    }
                } else { None }
            }
            else {
                None
            }
        } })
{
    if is_word(at(s, i).kind) && is_word(at(s, i + 1).kind) { u_member_1_0(s, i); }
    else if is_word(at(s, i).kind) && at(s, i + 1).kind is ParenOpen { u_member_1_1(s, i); }
    else if is_word(at(s, i).kind) { u_member_1_2(s, i); }
    else if at(s, i).kind is LiteralNumber { u_member_1_3(s, i); }
    else if at(s, i).kind is LiteralBinary { u_member_1_4(s, i); }
    else { u_member_1_5(s, i); }
}
}
pub use vx_wf25::*;
pub mod vx_wf26 {
use super::*;
pub proof fn w_member_1<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_member(s, i) is Some, !((at(s, i).kind is Static))
    ensures ({ let x = (p_member(s, i)->0).0; wf_member(*x.item) })
    decreases rem(s, i), 29int, 0int
{
    u_member_1(s, i);
    let is_static = false;
    let (is_static) = (is_static);
    if is_word(at(s, i).kind) {
        let label = at(s, i).text;
        if plain(s, i + 1) {
            if is_word(at(s, i + 1).kind) {
                let key = nd(PropertyKey::Literal(at(s, i + 1).text));
                assert(wf_key(*key.item));
                if plain(s, i + 2) {
                    if label == lit(7628135) {
                        let (is_static, kind, key) = (is_static, MethodKind::Get, key);
                        if (at(s, i + 2).kind is ParenOpen) {
                            if let Some((v, j34)) = p_function_empty(s, i + 2) {
                                w_function_empty(s, i + 2);
                                let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                assert(wf_member(*m.item));
                                if (at(s, j34).kind is Semicolon) {
                                    if plain(s, j34 + 1) {
                                        assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                                    }
                                }
                                else {
                                    assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                                }
                            }
                        }
                        else {
                            if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                if let Some((e, j35)) = p_expr(s, i + 3, 0, 0) {
                                    w_expr(s, i + 3, 0, 0);
                                    let m = nd(ClassMember::Literal { is_static, key, value: e });
                                    assert(wf_member(*m.item));
                                    if (at(s, j35).kind is Semicolon) {
                                        if plain(s, j35 + 1) {
                                            assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                                        }
                                    }
                                    else {
                                        assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                                    }
                                }
                            }
                        }
                    }
                    else if label == lit(7628147) {
                        let (is_static, kind, key) = (is_static, MethodKind::Set, key);
                        if (at(s, i + 2).kind is ParenOpen) {
                            if let Some((v, j36)) = p_function_empty(s, i + 2) {
                                w_function_empty(s, i + 2);
                                let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                assert(wf_member(*m.item));
                                if (at(s, j36).kind is Semicolon) {
                                    if plain(s, j36 + 1) {
                                        assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                                    }
                                }
                                else {
                                    assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                                }
                            }
                        }
                        else {
                            if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                if let Some((e, j37)) = p_expr(s, i + 3, 0, 0) {
                                    w_expr(s, i + 3, 0, 0);
                                    let m = nd(ClassMember::Literal { is_static, key, value: e });
                                    assert(wf_member(*m.item));
                                    if (at(s, j37).kind is Semicolon) {
                                        if plain(s, j37 + 1) {
                                            assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                                        }
                                    }
                                    else {
                                        assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                                    }
                                }
                            }
                        }
                    }
                    else {
                    }
                }
            }
            else {
                let kind = if !is_static && label == lit(138343873104739033351614307) { MethodKind::Constructor } else { MethodKind::Method };
                let (is_static, kind, key) = (is_static, kind, nd(PropertyKey::Literal(label)));
                if (at(s, i + 1).kind is ParenOpen) {
                    if let Some((v, j38)) = p_function_empty(s, i + 1) {
                        w_function_empty(s, i + 1);
                        let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                        assert(wf_member(*m.item));
                        if (at(s, j38).kind is Semicolon) {
                            if plain(s, j38 + 1) {
                                assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                            }
                        }
                        else {
                            assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                        }
                    }
                }
                else {
                    if at(s, i + 1).kind is OperatorAssign && plain(s, i + 2) {
                        if let Some((e, j39)) = p_expr(s, i + 2, 0, 0) {
                            w_expr(s, i + 2, 0, 0);
                            let m = nd(ClassMember::Literal { is_static, key, value: e });
                            assert(wf_member(*m.item));
                            if (at(s, j39).kind is Semicolon) {
                                if plain(s, j39 + 1) {
                                    assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                                }
                            }
                            else {
                                assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                            }
                        }
                    }
                }
            }
        }
    }
    else if (at(s, i).kind is LiteralNumber) {
        let n = at(s, i).text;
        if plain(s, i + 1) {
            let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Literal(n)));
            if (at(s, i + 1).kind is ParenOpen) {
                if let Some((v, j40)) = p_function_empty(s, i + 1) {
                    w_function_empty(s, i + 1);
                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                    assert(wf_member(*m.item));
                    if (at(s, j40).kind is Semicolon) {
                        if plain(s, j40 + 1) {
                            assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                        }
                    }
                    else {
                        assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                    }
                }
            }
            else {
                if at(s, i + 1).kind is OperatorAssign && plain(s, i + 2) {
                    if let Some((e, j41)) = p_expr(s, i + 2, 0, 0) {
                        w_expr(s, i + 2, 0, 0);
                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                        assert(wf_member(*m.item));
                        if (at(s, j41).kind is Semicolon) {
                            if plain(s, j41 + 1) {
                                assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                            }
                        }
                        else {
                            assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                        }
                    }
                }
            }
        }
    }
    else if (at(s, i).kind is LiteralBinary) {
        let n = at(s, i).text;
        if plain(s, i + 1) {
            let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Binary(n)));
            if (at(s, i + 1).kind is ParenOpen) {
                if let Some((v, j42)) = p_function_empty(s, i + 1) {
                    w_function_empty(s, i + 1);
                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                    assert(wf_member(*m.item));
                    if (at(s, j42).kind is Semicolon) {
                        if plain(s, j42 + 1) {
                            assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                        }
                    }
                    else {
                        assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                    }
                }
            }
            else {
                if at(s, i + 1).kind is OperatorAssign && plain(s, i + 2) {
                    if let Some((e, j43)) = p_expr(s, i + 2, 0, 0) {
                        w_expr(s, i + 2, 0, 0);
                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                        assert(wf_member(*m.item));
                        if (at(s, j43).kind is Semicolon) {
                            if plain(s, j43 + 1) {
                                assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                            }
                        }
                        else {
                            assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                        }
                    }
                }
            }
        }
    }
    else if (at(s, i).kind is BracketOpen) {
        if plain(s, i + 1) {
            if let Some((e, j44)) = p_expr(s, i + 1, -1, 0) {
                if j44 >= i + 1 {
                    w_expr(s, i + 1, -1, 0);
                    if at(s, j44).kind is BracketClose && plain(s, j44 + 1) {
                        let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Computed(e)));
                        if (at(s, j44 + 1).kind is ParenOpen) {
                            if let Some((v, j45)) = p_function_empty(s, j44 + 1) {
                                w_function_empty(s, j44 + 1);
                                let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                assert(wf_member(*m.item));
                                if (at(s, j45).kind is Semicolon) {
                                    if plain(s, j45 + 1) {
                                        assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                                    }
                                }
                                else {
                                    assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                                }
                            }
                        }
                        else {
                            if at(s, j44 + 1).kind is OperatorAssign && plain(s, j44 + 2) {
                                if let Some((e, j46)) = p_expr(s, j44 + 2, 0, 0) {
                                    w_expr(s, j44 + 2, 0, 0);
                                    let m = nd(ClassMember::Literal { is_static, key, value: e });
                                    assert(wf_member(*m.item));
                                    if (at(s, j46).kind is Semicolon) {
                                        if plain(s, j46 + 1) {
                                            assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                                        }
                                    }
                                    else {
                                        assert({ let x: Node<'a, ClassMember<'a>> = m; wf_member(*x.item) });
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    else {
    }
}
pub proof fn w_member<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_member(s, i) is Some
    ensures ({ let x = (p_member(s, i)->0).0; wf_member(*x.item) })
    decreases rem(s, i), 29int, 1int
{
    if (at(s, i).kind is Static) { w_member_0(s, i); }
    else { w_member_1(s, i); }
}
/// p_params, one step
pub proof fn u_params<'a>(s: Seq<Tok<'a>>, i: int)
    ensures p_params(s, i) == ({
        if at(s, i).kind is ParenOpen && plain(s, i + 1) {
            p_params_next(s, i + 1, Seq::empty())
        } else { None } })
{
    reveal(p_params);
    reveal(p_params_next);
}
pub proof fn w_params<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_params(s, i) is Some
    ensures ({ let x = (p_params(s, i)->0).0; (forall|k: int| 0 <= k < x.len() ==> wf_pat(*(#[trigger] x[k]).item)) })
    decreases rem(s, i), 11int, 0int
{
    u_params(s, i);
    if at(s, i).kind is ParenOpen && plain(s, i + 1) {
        if p_params_next(s, i + 1, Seq::empty()) is Some { w_params_next(s, i + 1, Seq::empty()); assert({ let x: Seq<Node<'a, Pattern<'a>>> = (p_params_next(s, i + 1, Seq::empty())->0).0; (forall|k: int| 0 <= k < x.len() ==> wf_pat(*(#[trigger] x[k]).item)) }); }
    }
}
}
pub use vx_wf26::*;
pub mod vx_wf27 {
use super::*;
/// p_params_next, one step
pub proof fn u_params_next<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<Node<'a, Pattern<'a>>>)
    ensures p_params_next(s, i, acc) == ({
        if (at(s, i).kind is ParenClose) {
            if plain(s, i + 1) {
                Some((acc, i + 1))
            } else { None }
        }
        else if (at(s, i).kind is OperatorSpread) {
            match p_rest_element(s, i) {
                Some((p, j4)) => {
                    Some((acc.push(p), j4))
                },
                None => None,
            }
        }
        else {
            match p_param(s, i) {
                Some((p, j5)) => if j5 >= i {
                    p_params_rest(s, j5, acc.push(p))
                } else { None },
                None => None,
            }
        } })
{
    reveal(p_params_next);
    reveal(p_rest_element);
    reveal(p_param);
    reveal(p_params_rest);
}
pub proof fn w_params_next<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<Node<'a, Pattern<'a>>>)
    requires lexed(s), p_params_next(s, i, acc) is Some, (forall|k: int| 0 <= k < acc.len() ==> wf_pat(*(#[trigger] acc[k]).item))
    ensures ({ let x = (p_params_next(s, i, acc)->0).0; (forall|k: int| 0 <= k < x.len() ==> wf_pat(*(#[trigger] x[k]).item)) })
    decreases rem(s, i), 14int, 0int
{
    u_params_next(s, i, acc);
    if (at(s, i).kind is ParenClose) {
        if plain(s, i + 1) {
            assert({ let x: Seq<Node<'a, Pattern<'a>>> = acc; (forall|k: int| 0 <= k < x.len() ==> wf_pat(*(#[trigger] x[k]).item)) });
        }
    }
    else if (at(s, i).kind is OperatorSpread) {
        if let Some((p, j1)) = p_rest_element(s, i) {
            w_rest_element(s, i);
            assert({ let x: Seq<Node<'a, Pattern<'a>>> = acc.push(p); (forall|k: int| 0 <= k < x.len() ==> wf_pat(*(#[trigger] x[k]).item)) });
        }
    }
    else {
        if let Some((p, j2)) = p_param(s, i) {
            if j2 >= i {
                w_param(s, i);
                if p_params_rest(s, j2, acc.push(p)) is Some { w_params_rest(s, j2, acc.push(p)); assert({ let x: Seq<Node<'a, Pattern<'a>>> = (p_params_rest(s, j2, acc.push(p))->0).0; (forall|k: int| 0 <= k < x.len() ==> wf_pat(*(#[trigger] x[k]).item)) }); }
            }
        }
    }
}
/// p_params_rest, one step
pub proof fn u_params_rest<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<Node<'a, Pattern<'a>>>)
    ensures p_params_rest(s, i, acc) == ({
        if (at(s, i).kind is Comma) {
            if plain(s, i + 1) {
                p_params_next(s, i + 1, acc)
            } else { None }
        }
        else {
            if at(s, i).kind is ParenClose && plain(s, i + 1) {
                Some((acc, i + 1))
            } else { None }
        } })
{
    reveal(p_params_rest);
    reveal(p_params_next);
}
pub proof fn w_params_rest<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<Node<'a, Pattern<'a>>>)
    requires lexed(s), p_params_rest(s, i, acc) is Some, (forall|k: int| 0 <= k < acc.len() ==> wf_pat(*(#[trigger] acc[k]).item))
    ensures ({ let x = (p_params_rest(s, i, acc)->0).0; (forall|k: int| 0 <= k < x.len() ==> wf_pat(*(#[trigger] x[k]).item)) })
    decreases rem(s, i), 12int, 0int
{
    u_params_rest(s, i, acc);
    if (at(s, i).kind is Comma) {
        if plain(s, i + 1) {
            if p_params_next(s, i + 1, acc) is Some { w_params_next(s, i + 1, acc); assert({ let x: Seq<Node<'a, Pattern<'a>>> = (p_params_next(s, i + 1, acc)->0).0; (forall|k: int| 0 <= k < x.len() ==> wf_pat(*(#[trigger] x[k]).item)) }); }
        }
    }
    else {
        if at(s, i).kind is ParenClose && plain(s, i + 1) {
            assert({ let x: Seq<Node<'a, Pattern<'a>>> = acc; (forall|k: int| 0 <= k < x.len() ==> wf_pat(*(#[trigger] x[k]).item)) });
        }
    }
}
/// p_rest_element, one step
pub proof fn u_rest_element<'a>(s: Seq<Tok<'a>>, i: int)
    ensures p_rest_element(s, i) == ({
        if !(at(s, i).kind is EndOfProgram) && plain(s, i + 1) {
            let n = nd(at(s, i + 1).text);
            if at(s, i + 1).kind is Identifier && plain(s, i + 2) {
                if at(s, i + 2).kind is ParenClose && plain(s, i + 3) {
                    Some((nd(Pattern::RestElement { argument: n }), i + 3))
                } else { None }
            } else { None }
        } else { None } })
{
    reveal(p_rest_element);
}
pub proof fn w_rest_element<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_rest_element(s, i) is Some
    ensures ({ let x = (p_rest_element(s, i)->0).0; wf_pat(*x.item) })
    decreases rem(s, i), 5int, 0int
{
    u_rest_element(s, i);
    if !(at(s, i).kind is EndOfProgram) && plain(s, i + 1) {
        let n = nd(at(s, i + 1).text);
        if at(s, i + 1).kind is Identifier && plain(s, i + 2) {
            if at(s, i + 2).kind is ParenClose && plain(s, i + 3) {
                assert({ let x: Node<'a, Pattern<'a>> = nd(Pattern::RestElement { argument: n }); wf_pat(*x.item) });
            }
        }
    }
}
/// p_param, one step
pub proof fn u_param<'a>(s: Seq<Tok<'a>>, i: int)
    ensures p_param(s, i) == ({
        match p_pattern(s, i) {
            Some((p, j3)) => if j3 >= i {
                p_pattern_assign(s, j3, p)
            } else { None },
            None => None,
        } })
{
    reveal(p_param);
    reveal(p_pattern);
    reveal(p_pattern_assign);
}
pub proof fn w_param<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_param(s, i) is Some
    ensures ({ let x = (p_param(s, i)->0).0; wf_pat(*x.item) })
    decreases rem(s, i), 13int, 0int
{
    u_param(s, i);
    if let Some((p, j1)) = p_pattern(s, i) {
        if j1 >= i {
            w_pattern(s, i);
            if p_pattern_assign(s, j1, p) is Some { w_pattern_assign(s, j1, p); assert({ let x: Node<'a, Pattern<'a>> = (p_pattern_assign(s, j1, p)->0).0; wf_pat(*x.item) }); }
        }
    }
}
/// p_pattern_assign, one step
pub proof fn u_pattern_assign<'a>(s: Seq<Tok<'a>>, i: int, left: Node<'a, Pattern<'a>>)
    ensures p_pattern_assign(s, i, left) == ({
        if (at(s, i).kind is OperatorAssign) {
            if plain(s, i + 1) {
                match p_expr(s, i + 1, 0, 0) {
                    Some((e, j2)) => {
                        Some((nd(Pattern::AssignmentPattern { left, right: e }), j2))
                    },
                    None => None,
                }
            } else { None }
        }
        else {
            Some((left, i))
        } })
{
    reveal(p_pattern_assign);
    reveal(p_expr);
}
pub proof fn w_pattern_assign<'a>(s: Seq<Tok<'a>>, i: int, left: Node<'a, Pattern<'a>>)
    requires lexed(s), p_pattern_assign(s, i, left) is Some, wf_pat(*left.item)
    ensures ({ let x = (p_pattern_assign(s, i, left)->0).0; wf_pat(*x.item) })
    decreases rem(s, i), 5int, 0int
{
    u_pattern_assign(s, i, left);
    if (at(s, i).kind is OperatorAssign) {
        if plain(s, i + 1) {
            if let Some((e, j1)) = p_expr(s, i + 1, 0, 0) {
                w_expr(s, i + 1, 0, 0);
                assert({ let x: Node<'a, Pattern<'a>> = nd(Pattern::AssignmentPattern { left, right: e }); wf_pat(*x.item) });
            }
        }
    }
    else {
        assert({ let x: Node<'a, Pattern<'a>> = left; wf_pat(*x.item) });
    }
}
/// p_pattern, one step
pub proof fn u_pattern<'a>(s: Seq<Tok<'a>>, i: int)
    ensures p_pattern(s, i) == ({
        if (at(s, i).kind is Identifier) {
            let n = at(s, i).text;
            if plain(s, i + 1) {
                Some((nd(Pattern::Identifier(n)), i + 1))
            } else { None }
        }
        else if (at(s, i).kind is BracketOpen) {
            {
                if !(at(s, i).kind is EndOfProgram) && plain(s, i + 1) {
                    match p_pattern_items(s, i + 1) {
                        Some((l, j4)) => {
                            if at(s, j4).kind is BracketClose && plain(s, j4 + 1) {
                                Some((nd(Pattern::ArrayPattern { elements: lst(l) }), j4 + 1))
                            } else { None }
                        },
                        None => None,
                    }
                } else { None }
            }
        }
        else if (at(s, i).kind is BraceOpen) {
            {
                if !(at(s, i).kind is EndOfProgram) && plain(s, i + 1) {
                    match p_properties(s, i + 1) {
                        Some((l, j6)) => {
                            if at(s, j6).kind is BraceClose && plain(s, j6 + 1) {
                                Some((nd(Pattern::ObjectPattern { properties: lst(l) }), j6 + 1))
                            } else { None }
                        },
                        None => None,
                    }
                } else { None }
            }
        }
        else {
            None
        } })
{
    reveal(p_pattern);
    reveal(p_pattern_items);
    reveal(p_properties);
}
pub proof fn w_pattern<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_pattern(s, i) is Some
    ensures ({ let x = (p_pattern(s, i)->0).0; wf_pat(*x.item) })
    decreases rem(s, i), 12int, 0int
{
    u_pattern(s, i);
    if (at(s, i).kind is Identifier) {
        let n = at(s, i).text;
        if plain(s, i + 1) {
            assert({ let x: Node<'a, Pattern<'a>> = nd(Pattern::Identifier(n)); wf_pat(*x.item) });
        }
    }
    else if (at(s, i).kind is BracketOpen) {
        if !(at(s, i).kind is EndOfProgram) && plain(s, i + 1) {
            if let Some((l, j1)) = p_pattern_items(s, i + 1) {
                w_pattern_items(s, i + 1);
                if at(s, j1).kind is BracketClose && plain(s, j1 + 1) {
                    assert({ let x: Node<'a, Pattern<'a>> = nd(Pattern::ArrayPattern { elements: lst(l) }); wf_pat(*x.item) });
                }
            }
        }
    }
    else if (at(s, i).kind is BraceOpen) {
        if !(at(s, i).kind is EndOfProgram) && plain(s, i + 1) {
            if let Some((l, j2)) = p_properties(s, i + 1) {
                w_properties(s, i + 1);
                if at(s, j2).kind is BraceClose && plain(s, j2 + 1) {
                    assert({ let x: Node<'a, Pattern<'a>> = nd(Pattern::ObjectPattern { properties: lst(l) }); wf_pat(*x.item) });
                }
            }
        }
    }
    else {
    }
}
/// p_pattern_item, one step
pub proof fn u_pattern_item<'a>(s: Seq<Tok<'a>>, i: int)
    ensures p_pattern_item(s, i) == ({
        if (at(s, i).kind is Comma || at(s, i).kind is BracketClose) {
            Some((nd(Pattern::Void), i))
        }
        else {
            p_param(s, i)
        } })
{
    reveal(p_pattern_item);
    reveal(p_param);
}
}
pub use vx_wf27::*;
pub mod vx_wf28 {
use super::*;
pub proof fn w_pattern_item<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_pattern_item(s, i) is Some
    ensures ({ let x = (p_pattern_item(s, i)->0).0; wf_pat(*x.item) || *x.item is Void })
    decreases rem(s, i), 14int, 0int
{
    u_pattern_item(s, i);
    if (at(s, i).kind is Comma || at(s, i).kind is BracketClose) {
        assert({ let x: Node<'a, Pattern<'a>> = nd(Pattern::Void); wf_pat(*x.item) || *x.item is Void });
    }
    else {
        if p_param(s, i) is Some { w_param(s, i); assert({ let x: Node<'a, Pattern<'a>> = (p_param(s, i)->0).0; wf_pat(*x.item) || *x.item is Void }); }
    }
}
/// p_pattern_items, one step
pub proof fn u_pattern_items<'a>(s: Seq<Tok<'a>>, i: int)
    ensures p_pattern_items(s, i) == ({
        if (at(s, i).kind is BracketClose) {
            Some((Seq::empty(), i))
        }
        else {
            match p_pattern_item(s, i) {
                Some((x, j3)) => if j3 >= i {
                    p_pattern_items_rest(s, j3, Seq::empty().push(x))
                } else { None },
                None => None,
            }
        } })
{
    reveal(p_pattern_items);
    reveal(p_pattern_item);
    reveal(p_pattern_items_rest);
}
pub proof fn w_pattern_items<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_pattern_items(s, i) is Some
    ensures ({ let x = (p_pattern_items(s, i)->0).0; (forall|k: int| 0 <= k < x.len() ==> (*(#[trigger] x[k]).item is Void || wf_pat(*x[k].item))) })
    decreases rem(s, i), 30int, 0int
{
    u_pattern_items(s, i);
    if (at(s, i).kind is BracketClose) {
        assert({ let x: Seq<Node<'a, Pattern<'a>>> = Seq::empty(); (forall|k: int| 0 <= k < x.len() ==> (*(#[trigger] x[k]).item is Void || wf_pat(*x[k].item))) });
    }
    else {
        if let Some((x, j1)) = p_pattern_item(s, i) {
            if j1 >= i {
                w_pattern_item(s, i);
                if p_pattern_items_rest(s, j1, Seq::empty().push(x)) is Some { w_pattern_items_rest(s, j1, Seq::empty().push(x)); assert({ let x: Seq<Node<'a, Pattern<'a>>> = (p_pattern_items_rest(s, j1, Seq::empty().push(x))->0).0; (forall|k: int| 0 <= k < x.len() ==> (*(#[trigger] x[k]).item is Void || wf_pat(*x[k].item))) }); }
            }
        }
    }
}
/// p_pattern_items_rest, one step
pub proof fn u_pattern_items_rest<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<Node<'a, Pattern<'a>>>)
    ensures p_pattern_items_rest(s, i, acc) == ({
        if (at(s, i).kind is BracketClose) {
            Some((acc, i))
        }
        else {
            if at(s, i).kind is Comma && plain(s, i + 1) {
                match p_pattern_item(s, i + 1) {
                    Some((x, j3)) => if j3 >= i + 1 {
                        p_pattern_items_rest(s, j3, acc.push(x))
                    } else { None },
                    None => None,
                }
            } else { None }
        } })
{
    reveal(p_pattern_items_rest);
    reveal(p_pattern_item);
}
pub proof fn w_pattern_items_rest<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<Node<'a, Pattern<'a>>>)
    requires lexed(s), p_pattern_items_rest(s, i, acc) is Some, (forall|k: int| 0 <= k < acc.len() ==> (*(#[trigger] acc[k]).item is Void || wf_pat(*acc[k].item)))
    ensures ({ let x = (p_pattern_items_rest(s, i, acc)->0).0; (forall|k: int| 0 <= k < x.len() ==> (*(#[trigger] x[k]).item is Void || wf_pat(*x[k].item))) })
    decreases rem(s, i), 1int, 0int
{
    u_pattern_items_rest(s, i, acc);
    if (at(s, i).kind is BracketClose) {
        assert({ let x: Seq<Node<'a, Pattern<'a>>> = acc; (forall|k: int| 0 <= k < x.len() ==> (*(#[trigger] x[k]).item is Void || wf_pat(*x[k].item))) });
    }
    else {
        if at(s, i).kind is Comma && plain(s, i + 1) {
            if let Some((x, j1)) = p_pattern_item(s, i + 1) {
                if j1 >= i + 1 {
                    w_pattern_item(s, i + 1);
                    if p_pattern_items_rest(s, j1, acc.push(x)) is Some { w_pattern_items_rest(s, j1, acc.push(x)); assert({ let x: Seq<Node<'a, Pattern<'a>>> = (p_pattern_items_rest(s, j1, acc.push(x))->0).0; (forall|k: int| 0 <= k < x.len() ==> (*(#[trigger] x[k]).item is Void || wf_pat(*x[k].item))) }); }
                }
            }
        }
    }
}
/// p_array_items, one step
pub proof fn u_array_items<'a>(s: Seq<Tok<'a>>, i: int)
    ensures p_array_items(s, i) == ({
        if (at(s, i).kind is BracketClose) {
            Some((Seq::empty(), i))
        }
        else {
            match p_expr(s, i, 0, 1) {
                Some((x, j3)) => if j3 >= i {
                    p_array_items_rest(s, j3, Seq::empty().push(x))
                } else { None },
                None => None,
            }
        } })
{
    reveal(p_array_items);
    reveal(p_expr);
    reveal(p_array_items_rest);
}
pub proof fn w_array_items<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_array_items(s, i) is Some
    ensures ({ let x = (p_array_items(s, i)->0).0; (forall|k: int| 0 <= k < x.len() ==> (*(#[trigger] x[k]).item is Void || wf_expr(*x[k].item))) })
    decreases rem(s, i), 30int, 0int
{
    u_array_items(s, i);
    if (at(s, i).kind is BracketClose) {
        assert({ let x: Seq<ExpressionNode<'a>> = Seq::empty(); (forall|k: int| 0 <= k < x.len() ==> (*(#[trigger] x[k]).item is Void || wf_expr(*x[k].item))) });
    }
    else {
        if let Some((x, j1)) = p_expr(s, i, 0, 1) {
            if j1 >= i {
                w_expr(s, i, 0, 1);
                if p_array_items_rest(s, j1, Seq::empty().push(x)) is Some { w_array_items_rest(s, j1, Seq::empty().push(x)); assert({ let x: Seq<ExpressionNode<'a>> = (p_array_items_rest(s, j1, Seq::empty().push(x))->0).0; (forall|k: int| 0 <= k < x.len() ==> (*(#[trigger] x[k]).item is Void || wf_expr(*x[k].item))) }); }
            }
        }
    }
}
/// p_array_items_rest, one step
pub proof fn u_array_items_rest<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<ExpressionNode<'a>>)
    ensures p_array_items_rest(s, i, acc) == ({
        if (at(s, i).kind is BracketClose) {
            Some((acc, i))
        }
        else {
            if at(s, i).kind is Comma && plain(s, i + 1) {
                match p_expr(s, i + 1, 0, 1) {
                    Some((x, j3)) => if j3 >= i + 1 {
                        p_array_items_rest(s, j3, acc.push(x))
                    } else { None },
                    None => None,
                }
            } else { None }
        } })
{
    reveal(p_array_items_rest);
    reveal(p_expr);
}
pub proof fn w_array_items_rest<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<ExpressionNode<'a>>)
    requires lexed(s), p_array_items_rest(s, i, acc) is Some, (forall|k: int| 0 <= k < acc.len() ==> (*(#[trigger] acc[k]).item is Void || wf_expr(*acc[k].item)))
    ensures ({ let x = (p_array_items_rest(s, i, acc)->0).0; (forall|k: int| 0 <= k < x.len() ==> (*(#[trigger] x[k]).item is Void || wf_expr(*x[k].item))) })
    decreases rem(s, i), 1int, 0int
{
    u_array_items_rest(s, i, acc);
    if (at(s, i).kind is BracketClose) {
        assert({ let x: Seq<ExpressionNode<'a>> = acc; (forall|k: int| 0 <= k < x.len() ==> (*(#[trigger] x[k]).item is Void || wf_expr(*x[k].item))) });
    }
    else {
        if at(s, i).kind is Comma && plain(s, i + 1) {
            if let Some((x, j1)) = p_expr(s, i + 1, 0, 1) {
                if j1 >= i + 1 {
                    w_expr(s, i + 1, 0, 1);
                    if p_array_items_rest(s, j1, acc.push(x)) is Some { w_array_items_rest(s, j1, acc.push(x)); assert({ let x: Seq<ExpressionNode<'a>> = (p_array_items_rest(s, j1, acc.push(x))->0).0; (forall|k: int| 0 <= k < x.len() ==> (*(#[trigger] x[k]).item is Void || wf_expr(*x[k].item))) }); }
                }
            }
        }
    }
}
/// p_expr, one step
pub proof fn u_expr<'a>(s: Seq<Tok<'a>>, i: int, thr: int, ctx: int)
    ensures p_expr(s, i, thr, ctx) == ({
        match p_head(s, i, ctx) {
            Some((x, j3)) => if j3 >= i {
                p_tail(s, j3, x, thr)
            } else { None },
            None => None,
        } })
{
    reveal(p_expr);
    reveal(p_head);
    reveal(p_tail);
}
pub proof fn w_expr<'a>(s: Seq<Tok<'a>>, i: int, thr: int, ctx: int)
    requires lexed(s), p_expr(s, i, thr, ctx) is Some, ctx == 1 ==> thr >= 0
    ensures ({ let x = (p_expr(s, i, thr, ctx)->0).0; wf_expr(*x.item) || (ctx == 1 && *x.item is Void) })
    decreases rem(s, i), 20int, 0int
{
    u_expr(s, i, thr, ctx);
    if let Some((x, j1)) = p_head(s, i, ctx) {
        if j1 >= i {
            w_head(s, i, ctx);
            if p_tail(s, j1, x, thr) is Some { if wf_expr(*x.item) { w_tail(s, j1, x, thr); } else { u_tail(s, j1, x, thr); } assert({ let x: ExpressionNode<'a> = (p_tail(s, j1, x, thr)->0).0; wf_expr(*x.item) || (ctx == 1 && *x.item is Void) }); }
        }
    }
}
/// p_tail, one step
pub proof fn u_tail<'a>(s: Seq<Tok<'a>>, i: int, left: ExpressionNode<'a>, thr: int)
    ensures p_tail(s, i, left, thr) == ({
        if binds(thr, at(s, (i))) {
            match p_op(s, i, left) {
                Some((x, j3)) => if j3 > i {
                    p_tail(s, j3, x, thr)
                } else { None },
                None => None,
            }
        }
        else {
            Some((left, i))
        } })
{
    reveal(p_tail);
    reveal(p_op);
}
pub proof fn w_tail<'a>(s: Seq<Tok<'a>>, i: int, left: ExpressionNode<'a>, thr: int)
    requires lexed(s), p_tail(s, i, left, thr) is Some, wf_expr(*left.item)
    ensures ({ let x = (p_tail(s, i, left, thr)->0).0; wf_expr(*x.item) })
    decreases rem(s, i), 16int, 0int
{
    u_tail(s, i, left, thr);
    if binds(thr, at(s, (i))) {
        if let Some((x, j1)) = p_op(s, i, left) {
            if j1 > i {
                w_op(s, i, left);
                if p_tail(s, j1, x, thr) is Some { w_tail(s, j1, x, thr); assert({ let x: ExpressionNode<'a> = (p_tail(s, j1, x, thr)->0).0; wf_expr(*x.item) }); }
            }
        }
    }
    else {
        assert({ let x: ExpressionNode<'a> = left; wf_expr(*x.item) });
    }
}
}
pub use vx_wf28::*;
pub mod vx_wf29 {
use super::*;
/// p_op, one step
pub proof fn u_op<'a>(s: Seq<Tok<'a>>, i: int, left: ExpressionNode<'a>)
    ensures p_op(s, i, left) == ({
        if (at(s, i).kind is Comma) {
            if plain(s, i + 1) {
                match p_expr(s, i + 1, 0, 0) {
                    Some((x, j11)) => if j11 >= i + 1 {
                        match p_sequence(s, j11, Seq::empty().push(left).push(x)) {
                            Some((l, j12)) => {
                                Some((nd(Expression::Sequence(SequenceExpression { body: lst(l) })), j12))
                            },
                            None => None,
                        }
                    } else { None },
                    None => None,
                }
            } else { None }
        }
        else if (at(s, i).kind is OperatorConditional) {
            if plain(s, i + 1) {
                match p_expr(s, i + 1, 0, 0) {
                    Some((a, j13)) => if j13 >= i + 1 {
                        if at(s, j13).kind is Colon && plain(s, j13 + 1) {
                            match p_expr(s, j13 + 1, 0, 0) {
                                Some((b, j14)) => {
                                    Some((nd(Expression::Conditional(ConditionalExpression { test: left, consequent: a, alternate: b })), j14))
                                },
                                None => None,
                            }
                        } else { None }
                    } else { None },
                    None => None,
                }
            } else { None }
        }
        else if (at(s, i).kind is OperatorFatArrow) {
            if plain(s, i + 1) {
                match p_arrow(s, i + 1, arrow_params(left)) {
                    Some((a, j15)) => {
                        Some((nd(Expression::Arrow(a)), j15))
                    },
                    None => None,
                }
            } else { None }
        }
        else if (at(s, i).kind is Accessor) {
            let name = at(s, i).acc;
            if plain(s, i + 1) {
                Some((nd(Expression::Member(MemberExpression { object: left, property: nd(name) })), i + 1))
            } else { None }
        }
        else if (at(s, i).kind is ParenOpen) {
            if plain(s, i + 1) {
                match p_arguments(s, i + 1) {
                    Some((l, j16)) => {
                        if at(s, j16).kind is ParenClose && plain(s, j16 + 1) {
                            Some((nd(Expression::Call(CallExpression { callee: left, arguments: lst(l) })), j16 + 1))
                        } else { None }
                    },
                    None => None,
                }
            } else { None }
        }
        else if (at(s, i).kind is BracketOpen) {
            if plain(s, i + 1) {
                match p_expr(s, i + 1, -1, 0) {
                    Some((e, j17)) => {
                        if at(s, j17).kind is BracketClose && plain(s, j17 + 1) {
                            Some((nd(Expression::ComputedMember(ComputedMemberExpression { object: left, property: e })), j17 + 1))
                        } else { None }
                    },
                    None => None,
                }
            } else { None }
        }
        else if (at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) {
            match p_template(s, i) {
                Some((q, j18)) => {
                    Some((nd(Expression::TaggedTemplate(TaggedTemplateExpression { tag: left, quasi: nd(q) })), j18))
                },
                None => None,
            }
        }
        else if (at(s, i).kind is OperatorIncrement || at(s, i).kind is OperatorDecrement) {
            let op = operator(at(s, i).kind);
            if lvalue(*left.item) {
                if plain(s, i + 1) {
                    Some((nd(Expression::Postfix(PostfixExpression { operator: op, operand: left })), i + 1))
                } else { None }
            } else { None }
        }
        else if is_assign(at(s, i).kind) {
            let op = operator(at(s, i).kind);
            if lvalue(*left.item) {
                if plain(s, i + 1) {
                    match p_expr(s, i + 1, 0, 0) {
                        Some((e, j19)) => {
                            Some((nd(Expression::Binary(BinaryExpression { operator: op, left, right: e })), j19))
                        },
                        None => None,
                    }
                } else { None }
            } else { None }
        }
        else if is_binary(at(s, i).kind) {
            let op = operator(at(s, i).kind);
            let thr = if at(s, (i)).kind is OperatorExponent { 140 } else { level(at(s, i).kind) };
            if plain(s, i + 1) {
                match p_expr(s, i + 1, thr, 0) {
                    Some((e, j20)) => {
                        Some((nd(Expression::Binary(BinaryExpression { operator: op, left, right: e })), j20))
                    },
                    None => None,
                }
            } else { None }
        }
        else {
            None
        } })
{
    reveal(p_op);
    reveal(p_expr);
    reveal(p_sequence);
    reveal(p_arrow);
    reveal(p_arguments);
    reveal(p_template);
}
pub proof fn w_op<'a>(s: Seq<Tok<'a>>, i: int, left: ExpressionNode<'a>)
    requires lexed(s), p_op(s, i, left) is Some, wf_expr(*left.item)
    ensures ({ let x = (p_op(s, i, left)->0).0; wf_expr(*x.item) })
    decreases rem(s, i), 14int, 0int
{
    u_op(s, i, left);
    if (at(s, i).kind is Comma) {
        if plain(s, i + 1) {
            if let Some((x, j1)) = p_expr(s, i + 1, 0, 0) {
                if j1 >= i + 1 {
                    w_expr(s, i + 1, 0, 0);
                    if let Some((l, j2)) = p_sequence(s, j1, Seq::empty().push(left).push(x)) {
                        w_sequence(s, j1, Seq::empty().push(left).push(x));
                        assert({ let x: ExpressionNode<'a> = nd(Expression::Sequence(SequenceExpression { body: lst(l) })); wf_expr(*x.item) });
                    }
                }
            }
        }
    }
    else if (at(s, i).kind is OperatorConditional) {
        if plain(s, i + 1) {
            if let Some((a, j3)) = p_expr(s, i + 1, 0, 0) {
                if j3 >= i + 1 {
                    w_expr(s, i + 1, 0, 0);
                    if at(s, j3).kind is Colon && plain(s, j3 + 1) {
                        if let Some((b, j4)) = p_expr(s, j3 + 1, 0, 0) {
                            w_expr(s, j3 + 1, 0, 0);
                            assert({ let x: ExpressionNode<'a> = nd(Expression::Conditional(ConditionalExpression { test: left, consequent: a, alternate: b })); wf_expr(*x.item) });
                        }
                    }
                }
            }
        }
    }
    else if (at(s, i).kind is OperatorFatArrow) {
        if plain(s, i + 1) {
            if let Some((a, j5)) = p_arrow(s, i + 1, arrow_params(left)) {
                wp_left(left); w_arrow(s, i + 1, arrow_params(left));
                assert({ let x: ExpressionNode<'a> = nd(Expression::Arrow(a)); wf_expr(*x.item) });
            }
        }
    }
    else if (at(s, i).kind is Accessor) {
        let name = at(s, i).acc;
        if plain(s, i + 1) {
            assert({ let x: ExpressionNode<'a> = nd(Expression::Member(MemberExpression { object: left, property: nd(name) })); wf_expr(*x.item) });
        }
    }
    else if (at(s, i).kind is ParenOpen) {
        if plain(s, i + 1) {
            if let Some((l, j6)) = p_arguments(s, i + 1) {
                w_arguments(s, i + 1);
                if at(s, j6).kind is ParenClose && plain(s, j6 + 1) {
                    assert({ let x: ExpressionNode<'a> = nd(Expression::Call(CallExpression { callee: left, arguments: lst(l) })); wf_expr(*x.item) });
                }
            }
        }
    }
    else if (at(s, i).kind is BracketOpen) {
        if plain(s, i + 1) {
            if let Some((e, j7)) = p_expr(s, i + 1, -1, 0) {
                w_expr(s, i + 1, -1, 0);
                if at(s, j7).kind is BracketClose && plain(s, j7 + 1) {
                    assert({ let x: ExpressionNode<'a> = nd(Expression::ComputedMember(ComputedMemberExpression { object: left, property: e })); wf_expr(*x.item) });
                }
            }
        }
    }
    else if (at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) {
        if let Some((q, j8)) = p_template(s, i) {
            w_template(s, i);
            assert({ let x: ExpressionNode<'a> = nd(Expression::TaggedTemplate(TaggedTemplateExpression { tag: left, quasi: nd(q) })); wf_expr(*x.item) });
        }
    }
    else if (at(s, i).kind is OperatorIncrement || at(s, i).kind is OperatorDecrement) {
        let op = operator(at(s, i).kind);
        if lvalue(*left.item) {
            if plain(s, i + 1) {
                assert({ let x: ExpressionNode<'a> = nd(Expression::Postfix(PostfixExpression { operator: op, operand: left })); wf_expr(*x.item) });
            }
        }
    }
    else if is_assign(at(s, i).kind) {
        let op = operator(at(s, i).kind);
        if lvalue(*left.item) {
            if plain(s, i + 1) {
                if let Some((e, j9)) = p_expr(s, i + 1, 0, 0) {
                    w_expr(s, i + 1, 0, 0);
                    assert({ let x: ExpressionNode<'a> = nd(Expression::Binary(BinaryExpression { operator: op, left, right: e })); wf_expr(*x.item) });
                }
            }
        }
    }
    else if is_binary(at(s, i).kind) {
        let op = operator(at(s, i).kind);
        let thr = if at(s, (i)).kind is OperatorExponent { 140 } else { level(at(s, i).kind) };
        if plain(s, i + 1) {
            if let Some((e, j10)) = p_expr(s, i + 1, thr, 0) {
                w_expr(s, i + 1, thr, 0);
                assert({ let x: ExpressionNode<'a> = nd(Expression::Binary(BinaryExpression { operator: op, left, right: e })); wf_expr(*x.item) });
            }
        }
    }
    else {
    }
}
/// p_sequence, one step
pub proof fn u_sequence<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<ExpressionNode<'a>>)
    ensures p_sequence(s, i, acc) == ({
        if (at(s, i).kind is Comma) {
            if plain(s, i + 1) {
                match p_expr(s, i + 1, 0, 0) {
                    Some((x, j3)) => if j3 >= i + 1 {
                        p_sequence(s, j3, acc.push(x))
                    } else { None },
                    None => None,
                }
            } else { None }
        }
        else {
            Some((acc, i))
        } })
{
    reveal(p_sequence);
    reveal(p_expr);
}
pub proof fn w_sequence<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<ExpressionNode<'a>>)
    requires lexed(s), p_sequence(s, i, acc) is Some, (forall|k: int| 0 <= k < acc.len() ==> wf_expr(*(#[trigger] acc[k]).item))
    ensures ({ let x = (p_sequence(s, i, acc)->0).0; (forall|k: int| 0 <= k < x.len() ==> wf_expr(*(#[trigger] x[k]).item)) })
    decreases rem(s, i), 5int, 0int
{
    u_sequence(s, i, acc);
    if (at(s, i).kind is Comma) {
        if plain(s, i + 1) {
            if let Some((x, j1)) = p_expr(s, i + 1, 0, 0) {
                if j1 >= i + 1 {
                    w_expr(s, i + 1, 0, 0);
                    if p_sequence(s, j1, acc.push(x)) is Some { w_sequence(s, j1, acc.push(x)); assert({ let x: Seq<ExpressionNode<'a>> = (p_sequence(s, j1, acc.push(x))->0).0; (forall|k: int| 0 <= k < x.len() ==> wf_expr(*(#[trigger] x[k]).item)) }); }
                }
            }
        }
    }
    else {
        assert({ let x: Seq<ExpressionNode<'a>> = acc; (forall|k: int| 0 <= k < x.len() ==> wf_expr(*(#[trigger] x[k]).item)) });
    }
}
}
pub use vx_wf29::*;
pub mod vx_wf30 {
use super::*;
/// p_arguments, one step
pub proof fn u_arguments<'a>(s: Seq<Tok<'a>>, i: int)
    ensures p_arguments(s, i) == ({
        if (at(s, i).kind is ParenClose) {
            Some((Seq::empty(), i))
        }
        else {
            match p_expr(s, i, 0, 2) {
                Some((x, j3)) => if j3 >= i {
                    p_arguments_rest(s, j3, Seq::empty().push(x))
                } else { None },
                None => None,
            }
        } })
{
    reveal(p_arguments);
    reveal(p_expr);
    reveal(p_arguments_rest);
}
pub proof fn w_arguments<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_arguments(s, i) is Some
    ensures ({ let x = (p_arguments(s, i)->0).0; (forall|k: int| 0 <= k < x.len() ==> wf_expr(*(#[trigger] x[k]).item)) })
    decreases rem(s, i), 30int, 0int
{
    u_arguments(s, i);
    if (at(s, i).kind is ParenClose) {
        assert({ let x: Seq<ExpressionNode<'a>> = Seq::empty(); (forall|k: int| 0 <= k < x.len() ==> wf_expr(*(#[trigger] x[k]).item)) });
    }
    else {
        if let Some((x, j1)) = p_expr(s, i, 0, 2) {
            if j1 >= i {
                w_expr(s, i, 0, 2);
                if p_arguments_rest(s, j1, Seq::empty().push(x)) is Some { w_arguments_rest(s, j1, Seq::empty().push(x)); assert({ let x: Seq<ExpressionNode<'a>> = (p_arguments_rest(s, j1, Seq::empty().push(x))->0).0; (forall|k: int| 0 <= k < x.len() ==> wf_expr(*(#[trigger] x[k]).item)) }); }
            }
        }
    }
}
/// p_arguments_rest, one step
pub proof fn u_arguments_rest<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<ExpressionNode<'a>>)
    ensures p_arguments_rest(s, i, acc) == ({
        if (at(s, i).kind is ParenClose) {
            Some((acc, i))
        }
        else {
            if at(s, i).kind is Comma && plain(s, i + 1) {
                if (at(s, i + 1).kind is ParenClose) {
                    Some((acc, i + 1))
                }
                else {
                    match p_expr(s, i + 1, 0, 2) {
                        Some((x, j3)) => if j3 >= i + 1 {
                            p_arguments_rest(s, j3, acc.push(x))
                        } else { None },
                        None => None,
                    }
                }
            } else { None }
        } })
{
    reveal(p_arguments_rest);
    reveal(p_expr);
}
pub proof fn w_arguments_rest<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<ExpressionNode<'a>>)
    requires lexed(s), p_arguments_rest(s, i, acc) is Some, (forall|k: int| 0 <= k < acc.len() ==> wf_expr(*(#[trigger] acc[k]).item))
    ensures ({ let x = (p_arguments_rest(s, i, acc)->0).0; (forall|k: int| 0 <= k < x.len() ==> wf_expr(*(#[trigger] x[k]).item)) })
    decreases rem(s, i), 5int, 0int
{
    u_arguments_rest(s, i, acc);
    if (at(s, i).kind is ParenClose) {
        assert({ let x: Seq<ExpressionNode<'a>> = acc; (forall|k: int| 0 <= k < x.len() ==> wf_expr(*(#[trigger] x[k]).item)) });
    }
    else {
        if at(s, i).kind is Comma && plain(s, i + 1) {
            if (at(s, i + 1).kind is ParenClose) {
                assert({ let x: Seq<ExpressionNode<'a>> = acc; (forall|k: int| 0 <= k < x.len() ==> wf_expr(*(#[trigger] x[k]).item)) });
            }
            else {
                if let Some((x, j1)) = p_expr(s, i + 1, 0, 2) {
                    if j1 >= i + 1 {
                        w_expr(s, i + 1, 0, 2);
                        if p_arguments_rest(s, j1, acc.push(x)) is Some { w_arguments_rest(s, j1, acc.push(x)); assert({ let x: Seq<ExpressionNode<'a>> = (p_arguments_rest(s, j1, acc.push(x))->0).0; (forall|k: int| 0 <= k < x.len() ==> wf_expr(*(#[trigger] x[k]).item)) }); }
                    }
                }
            }
        }
    }
}
/// p_arrow, one step
pub proof fn u_arrow<'a>(s: Seq<Tok<'a>>, i: int, params: Seq<ExpressionNode<'a>>)
    ensures p_arrow(s, i, params) == ({
        if patterns_of(params, 0, Seq::empty()) is Some {
            let ps = lst(patterns_of(params, 0, Seq::empty())->0);
            if (at(s, i).kind is BraceOpen) {
                match p_block(s, i) {
                    Some((b, j3)) => {
                        Some((ArrowExpression { params: ps, body: ArrowBody::Block(b) }, j3))
                    },
                    None => None,
                }
            }
            else {
                match p_expr(s, i, 0, 0) {
                    Some((e, j4)) => {
                        Some((ArrowExpression { params: ps, body: ArrowBody::Expression(e) }, j4))
                    },
                    None => None,
                }
            }
        } else { None } })
{
    reveal(p_arrow);
    reveal(p_block);
    reveal(p_expr);
}
pub proof fn w_arrow<'a>(s: Seq<Tok<'a>>, i: int, params: Seq<ExpressionNode<'a>>)
    requires lexed(s), p_arrow(s, i, params) is Some, (forall|k: int| 0 <= k < params.len() ==> wf_expr(*(#[trigger] params[k]).item))
    ensures ({ let x = (p_arrow(s, i, params)->0).0; wf_arrow(x) })
    decreases rem(s, i), 30int, 0int
{
    u_arrow(s, i, params);
    if patterns_of(params, 0, Seq::empty()) is Some {
        let ps = lst(patterns_of(params, 0, Seq::empty())->0);
        wp_patterns(params, 0, Seq::empty());
        if (at(s, i).kind is BraceOpen) {
            if let Some((b, j1)) = p_block(s, i) {
                w_block(s, i);
                assert({ let x: ArrowExpression<'a> = ArrowExpression { params: ps, body: ArrowBody::Block(b) }; wf_arrow(x) });
            }
        }
        else {
            if let Some((e, j2)) = p_expr(s, i, 0, 0) {
                w_expr(s, i, 0, 0);
                assert({ let x: ArrowExpression<'a> = ArrowExpression { params: ps, body: ArrowBody::Expression(e) }; wf_arrow(x) });
            }
        }
    }
}
}
pub use vx_wf30::*;
pub mod vx_wf31 {
use super::*;
/// p_head, one step
pub proof fn u_head<'a>(s: Seq<Tok<'a>>, i: int, ctx: int)
    ensures p_head(s, i, ctx) == ({
        if (at(s, i).kind is Identifier) {
            let n = at(s, i).text;
            if plain(s, i + 1) {
                Some((nd(Expression::Identifier(n)), i + 1))
            } else { None }
        }
        else if (at(s, i).kind is ParenOpen) {
            {
                if !(at(s, i).kind is EndOfProgram) && plain(s, i + 1) {
                    if (at(s, i + 1).kind is ParenClose) {
                        if plain(s, i + 2) {
                            if at(s, i + 2).kind is OperatorFatArrow && plain(s, i + 3) {
                                match p_arrow(s, i + 3, Seq::empty()) {
                                    Some((a, j12)) => {
                                        Some((nd(Expression::Arrow(a)), j12))
                                    },
                                    None => None,
                                }
                            } else { None }
                        } else { None }
                    }
                    else {
                        match p_expr(s, i + 1, -1, 0) {
                            Some((e, j13)) => {
                                if at(s, j13).kind is ParenClose && plain(s, j13 + 1) {
                                    Some((e, j13 + 1))
                                } else { None }
                            },
                            None => None,
                        }
                    }
                } else { None }
            }
        }
        else if (at(s, i).kind is BracketOpen) {
            if plain(s, i + 1) {
                match p_array_items(s, i + 1) {
                    Some((l, j14)) => {
                        if at(s, j14).kind is BracketClose && plain(s, j14 + 1) {
                            Some((nd(Expression::Array(ArrayExpression { body: lst(l) })), j14 + 1))
                        } else { None }
                    },
                    None => None,
                }
            } else { None }
        }
        else if (at(s, i).kind is BraceOpen) {
            if plain(s, i + 1) {
                match p_properties(s, i + 1) {
                    Some((l, j15)) => {
                        if at(s, j15).kind is BraceClose && plain(s, j15 + 1) {
                            Some((nd(Expression::Object(ObjectExpression { body: lst(l) })), j15 + 1))
                        } else { None }
                    },
                    None => None,
                }
            } else { None }
        }
        else if (at(s, i).kind is OperatorNew) {
            if plain(s, i + 1) {
                p_new(s, i + 1)
            } else { None }
        }
        else if is_unary(at(s, i).kind) {
            let op = operator(at(s, i).kind);
            if plain(s, i + 1) {
                match p_expr(s, i + 1, 150, 0) {
                    Some((e, j17)) => {
                        Some((nd(Expression::Prefix(PrefixExpression { operator: op, operand: e })), j17))
                    },
                    None => None,
                }
            } else { None }
        }
        else if (at(s, i).kind is OperatorDivision) {
            if in_regex(s, i + 1) {
                let v = at(s, i + 1).text;
                if at(s, i + 1).kind is LiteralRegEx && plain(s, i + 2) {
                    Some((nd(Expression::Literal(Literal::RegEx(v))), i + 2))
                } else { None }
            } else { None }
        }
        else if (at(s, i).kind is Function) {
            if plain(s, i + 1) {
                match p_function_optional(s, i + 1) {
                    Some((f, j18)) => {
                        Some((nd(Expression::Function(f)), j18))
                    },
                    None => None,
                }
            } else { None }
        }
        else if (at(s, i).kind is Class) {
            if plain(s, i + 1) {
                match p_class_optional(s, i + 1) {
                    Some((f, j19)) => {
                        Some((nd(Expression::Class(f)), j19))
                    },
                    None => None,
                }
            } else { None }
        }
        else if (at(s, i).kind is This) {
            if plain(s, i + 1) {
                Some((nd(Expression::This(ThisExpression)), i + 1))
            } else { None }
        }
        else if (at(s, i).kind is LiteralTrue) {
            if plain(s, i + 1) {
                Some((nd(Expression::Literal(Literal::True)), i + 1))
            } else { None }
        }
        else if (at(s, i).kind is LiteralFalse) {
            if plain(s, i + 1) {
                Some((nd(Expression::Literal(Literal::False)), i + 1))
            } else { None }
        }
        else if (at(s, i).kind is LiteralNull) {
            if plain(s, i + 1) {
                Some((nd(Expression::Literal(Literal::Null)), i + 1))
            } else { None }
        }
        else if (at(s, i).kind is LiteralUndefined) {
            if plain(s, i + 1) {
                Some((nd(Expression::Literal(Literal::Undefined)), i + 1))
            } else { None }
        }
        else if (at(s, i).kind is LiteralString) {
            let n = at(s, i).text;
            if plain(s, i + 1) {
                Some((nd(Expression::Literal(Literal::String(n))), i + 1))
            } else { None }
        }
        else if (at(s, i).kind is LiteralNumber) {
            let n = at(s, i).text;
            if plain(s, i + 1) {
                Some((nd(Expression::Literal(Literal::Number(n))), i + 1))
            } else { None }
        }
        else if (at(s, i).kind is LiteralBinary) {
            let n = at(s, i).text;
            if plain(s, i + 1) {
                Some((nd(Expression::Literal(Literal::Binary(n))), i + 1))
            } else { None }
        }
        else if (at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) {
            match p_template(s, i) {
                Some((q, j20)) => {
                    Some((nd(Expression::Template(q)), j20))
                },
                None => None,
            }
        }
        else if (at(s, i).kind is OperatorSpread) && ctx != 0 {
            if plain(s, i + 1) {
                match p_expr(s, i + 1, 0, 0) {
                    Some((e, j21)) => {
                        Some((nd(Expression::Spread(SpreadExpression { argument: e })), j21))
                    },
                    None => None,
                }
            } else { None }
        }
        else if (at(s, i).kind is Comma || at(s, i).kind is BracketClose) && ctx == 1 {
            Some((nd(Expression::Void), i))
        }
        else {
            None
        } })
{
    reveal(p_head);
    reveal(p_arrow);
    reveal(p_expr);
    reveal(p_array_items);
    reveal(p_properties);
    reveal(p_new);
    reveal(p_function_optional);
    reveal(p_class_optional);
    reveal(p_template);
}
}
pub use vx_wf31::*;
pub mod vx_wf32 {
use super::*;
pub proof fn w_head<'a>(s: Seq<Tok<'a>>, i: int, ctx: int)
    requires lexed(s), p_head(s, i, ctx) is Some
    ensures ({ let x = (p_head(s, i, ctx)->0).0; wf_expr(*x.item) || (ctx == 1 && *x.item is Void && (p_head(s, i, ctx)->0).1 == i && (at(s, i).kind is Comma || at(s, i).kind is BracketClose)) })
    decreases rem(s, i), 18int, 0int
{
    u_head(s, i, ctx);
    if (at(s, i).kind is Identifier) {
        let n = at(s, i).text;
        if plain(s, i + 1) {
            assert({ let x: ExpressionNode<'a> = nd(Expression::Identifier(n)); wf_expr(*x.item) || (ctx == 1 && *x.item is Void && (p_head(s, i, ctx)->0).1 == i && (at(s, i).kind is Comma || at(s, i).kind is BracketClose)) });
        }
    }
    else if (at(s, i).kind is ParenOpen) {
        if !(at(s, i).kind is EndOfProgram) && plain(s, i + 1) {
            if (at(s, i + 1).kind is ParenClose) {
                if plain(s, i + 2) {
                    if at(s, i + 2).kind is OperatorFatArrow && plain(s, i + 3) {
                        if let Some((a, j1)) = p_arrow(s, i + 3, Seq::empty()) {
                            w_arrow(s, i + 3, Seq::empty());
                            assert({ let x: ExpressionNode<'a> = nd(Expression::Arrow(a)); wf_expr(*x.item) || (ctx == 1 && *x.item is Void && (p_head(s, i, ctx)->0).1 == i && (at(s, i).kind is Comma || at(s, i).kind is BracketClose)) });
                        }
                    }
                }
            }
            else {
                if let Some((e, j2)) = p_expr(s, i + 1, -1, 0) {
                    w_expr(s, i + 1, -1, 0);
                    if at(s, j2).kind is ParenClose && plain(s, j2 + 1) {
                        assert({ let x: ExpressionNode<'a> = e; wf_expr(*x.item) || (ctx == 1 && *x.item is Void && (p_head(s, i, ctx)->0).1 == i && (at(s, i).kind is Comma || at(s, i).kind is BracketClose)) });
                    }
                }
            }
        }
    }
    else if (at(s, i).kind is BracketOpen) {
        if plain(s, i + 1) {
            if let Some((l, j3)) = p_array_items(s, i + 1) {
                w_array_items(s, i + 1);
                if at(s, j3).kind is BracketClose && plain(s, j3 + 1) {
                    assert({ let x: ExpressionNode<'a> = nd(Expression::Array(ArrayExpression { body: lst(l) })); wf_expr(*x.item) || (ctx == 1 && *x.item is Void && (p_head(s, i, ctx)->0).1 == i && (at(s, i).kind is Comma || at(s, i).kind is BracketClose)) });
                }
            }
        }
    }
    else if (at(s, i).kind is BraceOpen) {
        if plain(s, i + 1) {
            if let Some((l, j4)) = p_properties(s, i + 1) {
                w_properties(s, i + 1);
                if at(s, j4).kind is BraceClose && plain(s, j4 + 1) {
                    assert({ let x: ExpressionNode<'a> = nd(Expression::Object(ObjectExpression { body: lst(l) })); wf_expr(*x.item) || (ctx == 1 && *x.item is Void && (p_head(s, i, ctx)->0).1 == i && (at(s, i).kind is Comma || at(s, i).kind is BracketClose)) });
                }
            }
        }
    }
    else if (at(s, i).kind is OperatorNew) {
        if plain(s, i + 1) {
            if p_new(s, i + 1) is Some { w_new(s, i + 1); assert({ let x: ExpressionNode<'a> = (p_new(s, i + 1)->0).0; wf_expr(*x.item) || (ctx == 1 && *x.item is Void && (p_head(s, i, ctx)->0).1 == i && (at(s, i).kind is Comma || at(s, i).kind is BracketClose)) }); }
        }
    }
    else if is_unary(at(s, i).kind) {
        let op = operator(at(s, i).kind);
        if plain(s, i + 1) {
            if let Some((e, j6)) = p_expr(s, i + 1, 150, 0) {
                w_expr(s, i + 1, 150, 0);
                assert({ let x: ExpressionNode<'a> = nd(Expression::Prefix(PrefixExpression { operator: op, operand: e })); wf_expr(*x.item) || (ctx == 1 && *x.item is Void && (p_head(s, i, ctx)->0).1 == i && (at(s, i).kind is Comma || at(s, i).kind is BracketClose)) });
            }
        }
    }
    else if (at(s, i).kind is OperatorDivision) {
        if in_regex(s, i + 1) {
            let v = at(s, i + 1).text;
            if at(s, i + 1).kind is LiteralRegEx && plain(s, i + 2) {
                assert({ let x: ExpressionNode<'a> = nd(Expression::Literal(Literal::RegEx(v))); wf_expr(*x.item) || (ctx == 1 && *x.item is Void && (p_head(s, i, ctx)->0).1 == i && (at(s, i).kind is Comma || at(s, i).kind is BracketClose)) });
            }
        }
    }
    else if (at(s, i).kind is Function) {
        if plain(s, i + 1) {
            if let Some((f, j7)) = p_function_optional(s, i + 1) {
                w_function_optional(s, i + 1);
                assert({ let x: ExpressionNode<'a> = nd(Expression::Function(f)); wf_expr(*x.item) || (ctx == 1 && *x.item is Void && (p_head(s, i, ctx)->0).1 == i && (at(s, i).kind is Comma || at(s, i).kind is BracketClose)) });
            }
        }
    }
    else if (at(s, i).kind is Class) {
        if plain(s, i + 1) {
            if let Some((f, j8)) = p_class_optional(s, i + 1) {
                w_class_optional(s, i + 1);
                assert({ let x: ExpressionNode<'a> = nd(Expression::Class(f)); wf_expr(*x.item) || (ctx == 1 && *x.item is Void && (p_head(s, i, ctx)->0).1 == i && (at(s, i).kind is Comma || at(s, i).kind is BracketClose)) });
            }
        }
    }
    else if (at(s, i).kind is This) {
        if plain(s, i + 1) {
            assert({ let x: ExpressionNode<'a> = nd(Expression::This(ThisExpression)); wf_expr(*x.item) || (ctx == 1 && *x.item is Void && (p_head(s, i, ctx)->0).1 == i && (at(s, i).kind is Comma || at(s, i).kind is BracketClose)) });
        }
    }
    else if (at(s, i).kind is LiteralTrue) {
        if plain(s, i + 1) {
            assert({ let x: ExpressionNode<'a> = nd(Expression::Literal(Literal::True)); wf_expr(*x.item) || (ctx == 1 && *x.item is Void && (p_head(s, i, ctx)->0).1 == i && (at(s, i).kind is Comma || at(s, i).kind is BracketClose)) });
        }
    }
    else if (at(s, i).kind is LiteralFalse) {
        if plain(s, i + 1) {
            assert({ let x: ExpressionNode<'a> = nd(Expression::Literal(Literal::False)); wf_expr(*x.item) || (ctx == 1 && *x.item is Void && (p_head(s, i, ctx)->0).1 == i && (at(s, i).kind is Comma || at(s, i).kind is BracketClose)) });
        }
    }
    else if (at(s, i).kind is LiteralNull) {
        if plain(s, i + 1) {
            assert({ let x: ExpressionNode<'a> = nd(Expression::Literal(Literal::Null)); wf_expr(*x.item) || (ctx == 1 && *x.item is Void && (p_head(s, i, ctx)->0).1 == i && (at(s, i).kind is Comma || at(s, i).kind is BracketClose)) });
        }
    }
    else if (at(s, i).kind is LiteralUndefined) {
        if plain(s, i + 1) {
            assert({ let x: ExpressionNode<'a> = nd(Expression::Literal(Literal::Undefined)); wf_expr(*x.item) || (ctx == 1 && *x.item is Void && (p_head(s, i, ctx)->0).1 == i && (at(s, i).kind is Comma || at(s, i).kind is BracketClose)) });
        }
    }
    else if (at(s, i).kind is LiteralString) {
        let n = at(s, i).text;
        if plain(s, i + 1) {
            assert({ let x: ExpressionNode<'a> = nd(Expression::Literal(Literal::String(n))); wf_expr(*x.item) || (ctx == 1 && *x.item is Void && (p_head(s, i, ctx)->0).1 == i && (at(s, i).kind is Comma || at(s, i).kind is BracketClose)) });
        }
    }
    else if (at(s, i).kind is LiteralNumber) {
        let n = at(s, i).text;
        if plain(s, i + 1) {
            assert({ let x: ExpressionNode<'a> = nd(Expression::Literal(Literal::Number(n))); wf_expr(*x.item) || (ctx == 1 && *x.item is Void && (p_head(s, i, ctx)->0).1 == i && (at(s, i).kind is Comma || at(s, i).kind is BracketClose)) });
        }
    }
    else if (at(s, i).kind is LiteralBinary) {
        let n = at(s, i).text;
        if plain(s, i + 1) {
            assert({ let x: ExpressionNode<'a> = nd(Expression::Literal(Literal::Binary(n))); wf_expr(*x.item) || (ctx == 1 && *x.item is Void && (p_head(s, i, ctx)->0).1 == i && (at(s, i).kind is Comma || at(s, i).kind is BracketClose)) });
        }
    }
    else if (at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) {
        if let Some((q, j9)) = p_template(s, i) {
            w_template(s, i);
            assert({ let x: ExpressionNode<'a> = nd(Expression::Template(q)); wf_expr(*x.item) || (ctx == 1 && *x.item is Void && (p_head(s, i, ctx)->0).1 == i && (at(s, i).kind is Comma || at(s, i).kind is BracketClose)) });
        }
    }
    else if (at(s, i).kind is OperatorSpread) && ctx != 0 {
        if plain(s, i + 1) {
            if let Some((e, j10)) = p_expr(s, i + 1, 0, 0) {
                w_expr(s, i + 1, 0, 0);
                assert({ let x: ExpressionNode<'a> = nd(Expression::Spread(SpreadExpression { argument: e })); wf_expr(*x.item) || (ctx == 1 && *x.item is Void && (p_head(s, i, ctx)->0).1 == i && (at(s, i).kind is Comma || at(s, i).kind is BracketClose)) });
            }
        }
    }
    else if (at(s, i).kind is Comma || at(s, i).kind is BracketClose) && ctx == 1 {
        assert({ let x: ExpressionNode<'a> = nd(Expression::Void); wf_expr(*x.item) || (ctx == 1 && *x.item is Void && (p_head(s, i, ctx)->0).1 == i && (at(s, i).kind is Comma || at(s, i).kind is BracketClose)) });
    }
    else {
    }
}
/// p_new, one step
pub proof fn u_new<'a>(s: Seq<Tok<'a>>, i: int)
    ensures p_new(s, i) == ({
        if (at(s, i).kind is Accessor) {
            let n = at(s, i).acc;
            if n == lit(127978876068212) {
                if plain(s, i + 1) {
                    Some((nd(Expression::MetaProperty(MetaPropertyExpression { meta: nd(lit(7824750)), property: nd(n) })), i + 1))
                } else { None }
            } else { None }
        }
        else {
            match p_expr(s, i, 175, 0) {
                Some((c, j3)) => if j3 >= i {
                    match ({
                        let (callee) = (c);
                        if (at(s, j3).kind is ParenOpen) {
                            if plain(s, j3 + 1) {
                                match p_arguments(s, j3 + 1) {
                                    Some((l, j5)) => {
                                        if at(s, j5).kind is ParenClose && plain(s, j5 + 1) {
                                            Some((nd(Expression::Call(CallExpression { callee, arguments: lst(l) })), j5 + 1))
                                        } else { None }
                                    },
                                    None => None,
                                }
                            } else { None }
                        }
                        else if callee.item is Call {
                            Some((nd(Expression::Call(CallExpression { callee, arguments: lst(Seq::empty()) })), j3))
                        }
                        else {
                            Some((callee, j3))
                        }
                    }) {
                        Some((o, j4)) => {
                            Some((nd(Expression::Prefix(PrefixExpression { operator: OperatorKind::New, operand: o })), j4))
                        },
                        None => None,
                    }
                } else { None },
                None => None,
            }
        } })
{
    reveal(p_new);
    reveal(p_expr);
    reveal(p_arguments);
}
pub proof fn w_new<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_new(s, i) is Some
    ensures ({ let x = (p_new(s, i)->0).0; wf_expr(*x.item) })
    decreases rem(s, i), 30int, 0int
{
    u_new(s, i);
    if (at(s, i).kind is Accessor) {
        let n = at(s, i).acc;
        if n == lit(127978876068212) {
            if plain(s, i + 1) {
                assert({ let x: ExpressionNode<'a> = nd(Expression::MetaProperty(MetaPropertyExpression { meta: nd(lit(7824750)), property: nd(n) })); wf_expr(*x.item) });
            }
        }
    }
    else {
        if let Some((c, j1)) = p_expr(s, i, 175, 0) {
            if j1 >= i {
                w_expr(s, i, 175, 0);
                let (callee) = (c);
                if (at(s, j1).kind is ParenOpen) {
                    if plain(s, j1 + 1) {
                        if let Some((l, j2)) = p_arguments(s, j1 + 1) {
                            w_arguments(s, j1 + 1);
                            if at(s, j2).kind is ParenClose && plain(s, j2 + 1) {
                                if j2 + 1 >= j1 {
                                    let o = nd(Expression::Call(CallExpression { callee, arguments: lst(l) }));  assert(wf_expr(*o.item));
                                    assert({ let x: ExpressionNode<'a> = nd(Expression::Prefix(PrefixExpression { operator: OperatorKind::New, operand: o })); wf_expr(*x.item) });
                                }
                            }
                        }
                    }
                }
                else if callee.item is Call {
                    if j1 >= j1 {
                        let o = nd(Expression::Call(CallExpression { callee, arguments: lst(Seq::empty()) }));  assert(wf_expr(*o.item));
                        assert({ let x: ExpressionNode<'a> = nd(Expression::Prefix(PrefixExpression { operator: OperatorKind::New, operand: o })); wf_expr(*x.item) });
                    }
                }
                else {
                    if j1 >= j1 {
                        let o = callee;
                        assert({ let x: ExpressionNode<'a> = nd(Expression::Prefix(PrefixExpression { operator: OperatorKind::New, operand: o })); wf_expr(*x.item) });
                    }
                }
            }
        }
    }
}
/// p_properties, one step
pub proof fn u_properties<'a>(s: Seq<Tok<'a>>, i: int)
    ensures p_properties(s, i) == ({
        if (at(s, i).kind is BraceClose) {
            Some((Seq::empty(), i))
        }
        else {
            match p_property(s, i) {
                Some((x, j3)) => if j3 >= i {
                    p_properties_rest(s, j3, Seq::empty().push(x))
                } else { None },
                None => None,
            }
        } })
{
    reveal(p_properties);
    reveal(p_property);
    reveal(p_properties_rest);
}
}
pub use vx_wf32::*;
pub mod vx_wf33 {
use super::*;
pub proof fn w_properties<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_properties(s, i) is Some
    ensures ({ let x = (p_properties(s, i)->0).0; (forall|k: int| 0 <= k < x.len() ==> wf_prop(*(#[trigger] x[k]).item)) })
    decreases rem(s, i), 30int, 0int
{
    u_properties(s, i);
    if (at(s, i).kind is BraceClose) {
        assert({ let x: Seq<Node<'a, Property<'a>>> = Seq::empty(); (forall|k: int| 0 <= k < x.len() ==> wf_prop(*(#[trigger] x[k]).item)) });
    }
    else {
        if let Some((x, j1)) = p_property(s, i) {
            if j1 >= i {
                w_property(s, i);
                if p_properties_rest(s, j1, Seq::empty().push(x)) is Some { w_properties_rest(s, j1, Seq::empty().push(x)); assert({ let x: Seq<Node<'a, Property<'a>>> = (p_properties_rest(s, j1, Seq::empty().push(x))->0).0; (forall|k: int| 0 <= k < x.len() ==> wf_prop(*(#[trigger] x[k]).item)) }); }
            }
        }
    }
}
/// p_properties_rest, one step
pub proof fn u_properties_rest<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<Node<'a, Property<'a>>>)
    ensures p_properties_rest(s, i, acc) == ({
        if (at(s, i).kind is BraceClose) {
            Some((acc, i))
        }
        else {
            if at(s, i).kind is Comma && plain(s, i + 1) {
                if (at(s, i + 1).kind is BraceClose) {
                    Some((acc, i + 1))
                }
                else {
                    match p_property(s, i + 1) {
                        Some((x, j3)) => if j3 >= i + 1 {
                            p_properties_rest(s, j3, acc.push(x))
                        } else { None },
                        None => None,
                    }
                }
            } else { None }
        } })
{
    reveal(p_properties_rest);
    reveal(p_property);
}
pub proof fn w_properties_rest<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<Node<'a, Property<'a>>>)
    requires lexed(s), p_properties_rest(s, i, acc) is Some, (forall|k: int| 0 <= k < acc.len() ==> wf_prop(*(#[trigger] acc[k]).item))
    ensures ({ let x = (p_properties_rest(s, i, acc)->0).0; (forall|k: int| 0 <= k < x.len() ==> wf_prop(*(#[trigger] x[k]).item)) })
    decreases rem(s, i), 5int, 0int
{
    u_properties_rest(s, i, acc);
    if (at(s, i).kind is BraceClose) {
        assert({ let x: Seq<Node<'a, Property<'a>>> = acc; (forall|k: int| 0 <= k < x.len() ==> wf_prop(*(#[trigger] x[k]).item)) });
    }
    else {
        if at(s, i).kind is Comma && plain(s, i + 1) {
            if (at(s, i + 1).kind is BraceClose) {
                assert({ let x: Seq<Node<'a, Property<'a>>> = acc; (forall|k: int| 0 <= k < x.len() ==> wf_prop(*(#[trigger] x[k]).item)) });
            }
            else {
                if let Some((x, j1)) = p_property(s, i + 1) {
                    if j1 >= i + 1 {
                        w_property(s, i + 1);
                        if p_properties_rest(s, j1, acc.push(x)) is Some { w_properties_rest(s, j1, acc.push(x)); assert({ let x: Seq<Node<'a, Property<'a>>> = (p_properties_rest(s, j1, acc.push(x))->0).0; (forall|k: int| 0 <= k < x.len() ==> wf_prop(*(#[trigger] x[k]).item)) }); }
                    }
                }
            }
        }
    }
}
/// p_property, one step
pub proof fn u_property_0<'a>(s: Seq<Tok<'a>>, i: int)
    requires is_word(at(s, i).kind)
    ensures p_property(s, i) == ({
        let n = at(s, i).text;
        if plain(s, i + 1) {
            if (at(s, i + 1).kind is Colon || at(s, i + 1).kind is ParenOpen) {
                {
                    let (key) = (nd(PropertyKey::Literal(n)));
                    if (at(s, i + 1).kind is Colon) {
                        if plain(s, i + 2) {
                            match p_expr(s, i + 2, 0, 0) {
                                Some((e, j4)) => {
                                    Some((nd(Property::Literal { key, value: e }), j4))
                                },
                                None => None,
                            }
                        } else { None }
                    }
                    else if (at(s, i + 1).kind is ParenOpen) {
                        match p_function_empty(s, i + 1) {
                            Some((f, j5)) => {
                                Some((nd(Property::Method { key, value: nd(f) }), j5))
                            },
                            None => None,
                        }
                    }
                    else {
                        None
                    }
                }
            }
            else {
                Some((nd(Property::Shorthand(n)), i + 1))
            }
        } else { None } })
{
    reveal(p_property);
    reveal(p_expr);
    reveal(p_function_empty);
}
pub proof fn w_property_0<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_property(s, i) is Some, is_word(at(s, i).kind)
    ensures ({ let x = (p_property(s, i)->0).0; wf_prop(*x.item) })
    decreases rem(s, i), 29int, 0int
{
    u_property_0(s, i);
    let n = at(s, i).text;
    if plain(s, i + 1) {
        if (at(s, i + 1).kind is Colon || at(s, i + 1).kind is ParenOpen) {
            let (key) = (nd(PropertyKey::Literal(n)));
            if (at(s, i + 1).kind is Colon) {
                if plain(s, i + 2) {
                    if let Some((e, j1)) = p_expr(s, i + 2, 0, 0) {
                        w_expr(s, i + 2, 0, 0);
                        assert({ let x: Node<'a, Property<'a>> = nd(Property::Literal { key, value: e }); wf_prop(*x.item) });
                    }
                }
            }
            else if (at(s, i + 1).kind is ParenOpen) {
                if let Some((f, j2)) = p_function_empty(s, i + 1) {
                    w_function_empty(s, i + 1);
                    assert({ let x: Node<'a, Property<'a>> = nd(Property::Method { key, value: nd(f) }); wf_prop(*x.item) });
                }
            }
            else {
            }
        }
        else {
            assert({ let x: Node<'a, Property<'a>> = nd(Property::Shorthand(n)); wf_prop(*x.item) });
        }
    }
}
/// p_property, one step
pub proof fn u_property_1<'a>(s: Seq<Tok<'a>>, i: int)
    requires !(is_word(at(s, i).kind)), (at(s, i).kind is OperatorSpread)
    ensures p_property(s, i) == ({
        if plain(s, i + 1) {
            match p_expr(s, i + 1, 0, 0) {
                Some((e, j7)) => {
                    Some((nd(Property::Spread { argument: e }), j7))
                },
                None => None,
            }
        } else { None } })
{
    reveal(p_property);
    reveal(p_expr);
}
pub proof fn w_property_1<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_property(s, i) is Some, !(is_word(at(s, i).kind)), (at(s, i).kind is OperatorSpread)
    ensures ({ let x = (p_property(s, i)->0).0; wf_prop(*x.item) })
    decreases rem(s, i), 29int, 0int
{
    u_property_1(s, i);
    if plain(s, i + 1) {
        if let Some((e, j6)) = p_expr(s, i + 1, 0, 0) {
            w_expr(s, i + 1, 0, 0);
            assert({ let x: Node<'a, Property<'a>> = nd(Property::Spread { argument: e }); wf_prop(*x.item) });
        }
    }
}
/// p_property, one step
pub proof fn u_property_2<'a>(s: Seq<Tok<'a>>, i: int)
    requires !(is_word(at(s, i).kind)), !((at(s, i).kind is OperatorSpread)), (at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber)
    ensures p_property(s, i) == ({
        let n = at(s, i).text;
        if plain(s, i + 1) {
            {
                let (key) = (nd(PropertyKey::Literal(n)));
                if (at(s, i + 1).kind is Colon) {
                    if plain(s, i + 2) {
                        match p_expr(s, i + 2, 0, 0) {
                            Some((e, j11)) => {
                                Some((nd(Property::Literal { key, value: e }), j11))
                            },
                            None => None,
                        }
                    } else { None }
                }
                else if (at(s, i + 1).kind is ParenOpen) {
                    match p_function_empty(s, i + 1) {
                        Some((f, j12)) => {
                            Some((nd(Property::Method { key, value: nd(f) }), j12))
                        },
                        None => None,
                    }
                }
                else {
                    None
                }
            }
        } else { None } })
{
    reveal(p_property);
    reveal(p_expr);
    reveal(p_function_empty);
}
pub proof fn w_property_2<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_property(s, i) is Some, !(is_word(at(s, i).kind)), !((at(s, i).kind is OperatorSpread)), (at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber)
    ensures ({ let x = (p_property(s, i)->0).0; wf_prop(*x.item) })
    decreases rem(s, i), 29int, 0int
{
    u_property_2(s, i);
    let n = at(s, i).text;
    if plain(s, i + 1) {
        let (key) = (nd(PropertyKey::Literal(n)));
        if (at(s, i + 1).kind is Colon) {
            if plain(s, i + 2) {
                if let Some((e, j8)) = p_expr(s, i + 2, 0, 0) {
                    w_expr(s, i + 2, 0, 0);
                    assert({ let x: Node<'a, Property<'a>> = nd(Property::Literal { key, value: e }); wf_prop(*x.item) });
                }
            }
        }
        else if (at(s, i + 1).kind is ParenOpen) {
            if let Some((f, j9)) = p_function_empty(s, i + 1) {
                w_function_empty(s, i + 1);
                assert({ let x: Node<'a, Property<'a>> = nd(Property::Method { key, value: nd(f) }); wf_prop(*x.item) });
            }
        }
        else {
        }
    }
}
/// p_property, one step
pub proof fn u_property_3<'a>(s: Seq<Tok<'a>>, i: int)
    requires !(is_word(at(s, i).kind)), !((at(s, i).kind is OperatorSpread)), !((at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber)), (at(s, i).kind is LiteralBinary)
    ensures p_property(s, i) == ({
        let n = at(s, i).text;
        if plain(s, i + 1) {
            {
                let (key) = (nd(PropertyKey::Binary(n)));
                if (at(s, i + 1).kind is Colon) {
                    if plain(s, i + 2) {
                        match p_expr(s, i + 2, 0, 0) {
                            Some((e, j16)) => {
                                Some((nd(Property::Literal { key, value: e }), j16))
                            },
                            None => None,
                        }
                    } else { None }
                }
                else if (at(s, i + 1).kind is ParenOpen) {
                    match p_function_empty(s, i + 1) {
                        Some((f, j17)) => {
                            Some((nd(Property::Method { key, value: nd(f) }), j17))
                        },
                        None => None,
                    }
                }
                else {
                    None
                }
            }
        } else { None } })
{
    reveal(p_property);
    reveal(p_expr);
    reveal(p_function_empty);
}
}
pub use vx_wf33::*;
pub mod vx_wf34 {
use super::*;
pub proof fn w_property_3<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_property(s, i) is Some, !(is_word(at(s, i).kind)), !((at(s, i).kind is OperatorSpread)), !((at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber)), (at(s, i).kind is LiteralBinary)
    ensures ({ let x = (p_property(s, i)->0).0; wf_prop(*x.item) })
    decreases rem(s, i), 29int, 0int
{
    u_property_3(s, i);
    let n = at(s, i).text;
    if plain(s, i + 1) {
        let (key) = (nd(PropertyKey::Binary(n)));
        if (at(s, i + 1).kind is Colon) {
            if plain(s, i + 2) {
                if let Some((e, j13)) = p_expr(s, i + 2, 0, 0) {
                    w_expr(s, i + 2, 0, 0);
                    assert({ let x: Node<'a, Property<'a>> = nd(Property::Literal { key, value: e }); wf_prop(*x.item) });
                }
            }
        }
        else if (at(s, i + 1).kind is ParenOpen) {
            if let Some((f, j14)) = p_function_empty(s, i + 1) {
                w_function_empty(s, i + 1);
                assert({ let x: Node<'a, Property<'a>> = nd(Property::Method { key, value: nd(f) }); wf_prop(*x.item) });
            }
        }
        else {
        }
    }
}
/// p_property, one step
pub proof fn u_property_4<'a>(s: Seq<Tok<'a>>, i: int)
    requires !(is_word(at(s, i).kind)), !((at(s, i).kind is OperatorSpread)), !((at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber)), !((at(s, i).kind is LiteralBinary)), (at(s, i).kind is BracketOpen)
    ensures p_property(s, i) == ({
        if plain(s, i + 1) {
            match p_expr(s, i + 1, -1, 0) {
                Some((e, j21)) => if j21 >= i + 1 {
                    if at(s, j21).kind is BracketClose && plain(s, j21 + 1) {
                        {
                            let (key) = (nd(PropertyKey::Computed(e)));
                            if (at(s, j21 + 1).kind is Colon) {
                                if plain(s, j21 + 2) {
                                    match p_expr(s, j21 + 2, 0, 0) {
                                        Some((e, j23)) => {
                                            Some((nd(Property::Literal { key, value: e }), j23))
                                        },
                                        None => None,
                                    }
                                } else { None }
                            }
                            else if (at(s, j21 + 1).kind is ParenOpen) {
                                match p_function_empty(s, j21 + 1) {
                                    Some((f, j24)) => {
                                        Some((nd(Property::Method { key, value: nd(f) }), j24))
                                    },
                                    None => None,
                                }
                            }
                            else {
                                None
                            }
                        }
                    } else { None }
                } else { None },
                None => None,
            }
        } else { None } })
{
    reveal(p_property);
    reveal(p_expr);
    reveal(p_function_empty);
}
pub proof fn w_property_4<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_property(s, i) is Some, !(is_word(at(s, i).kind)), !((at(s, i).kind is OperatorSpread)), !((at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber)), !((at(s, i).kind is LiteralBinary)), (at(s, i).kind is BracketOpen)
    ensures ({ let x = (p_property(s, i)->0).0; wf_prop(*x.item) })
    decreases rem(s, i), 29int, 0int
{
    u_property_4(s, i);
    if plain(s, i + 1) {
        if let Some((e, j18)) = p_expr(s, i + 1, -1, 0) {
            if j18 >= i + 1 {
                w_expr(s, i + 1, -1, 0);
                if at(s, j18).kind is BracketClose && plain(s, j18 + 1) {
                    let (key) = (nd(PropertyKey::Computed(e)));
                    if (at(s, j18 + 1).kind is Colon) {
                        if plain(s, j18 + 2) {
                            if let Some((e, j19)) = p_expr(s, j18 + 2, 0, 0) {
                                w_expr(s, j18 + 2, 0, 0);
                                assert({ let x: Node<'a, Property<'a>> = nd(Property::Literal { key, value: e }); wf_prop(*x.item) });
                            }
                        }
                    }
                    else if (at(s, j18 + 1).kind is ParenOpen) {
                        if let Some((f, j20)) = p_function_empty(s, j18 + 1) {
                            w_function_empty(s, j18 + 1);
                            assert({ let x: Node<'a, Property<'a>> = nd(Property::Method { key, value: nd(f) }); wf_prop(*x.item) });
                        }
                    }
                    else {
                    }
                }
            }
        }
    }
}
/// p_property, one step
pub proof fn u_property_5<'a>(s: Seq<Tok<'a>>, i: int)
    requires !(is_word(at(s, i).kind)), !((at(s, i).kind is OperatorSpread)), !((at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber)), !((at(s, i).kind is LiteralBinary)), !((at(s, i).kind is BracketOpen))
    ensures p_property(s, i) == ({
        None })
{
    reveal(p_property);
}
pub proof fn w_property_5<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_property(s, i) is Some, !(is_word(at(s, i).kind)), !((at(s, i).kind is OperatorSpread)), !((at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber)), !((at(s, i).kind is LiteralBinary)), !((at(s, i).kind is BracketOpen))
    ensures ({ let x = (p_property(s, i)->0).0; wf_prop(*x.item) })
    decreases rem(s, i), 29int, 0int
{
    u_property_5(s, i);
}
pub proof fn w_property<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_property(s, i) is Some
    ensures ({ let x = (p_property(s, i)->0).0; wf_prop(*x.item) })
    decreases rem(s, i), 29int, 1int
{
    if is_word(at(s, i).kind) { w_property_0(s, i); }
    else if (at(s, i).kind is OperatorSpread) { w_property_1(s, i); }
    else if (at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber) { w_property_2(s, i); }
    else if (at(s, i).kind is LiteralBinary) { w_property_3(s, i); }
    else if (at(s, i).kind is BracketOpen) { w_property_4(s, i); }
    else { w_property_5(s, i); }
}
/// p_template, one step
pub proof fn u_template<'a>(s: Seq<Tok<'a>>, i: int)
    ensures p_template(s, i) == ({
        if (at(s, i).kind is TemplateClosed) {
            let q = nd(at(s, i).quasi);
            if plain(s, i + 1) {
                Some((TemplateLiteral { expressions: lst(Seq::empty()), quasis: lst(Seq::empty().push(q)) }, i + 1))
            } else { None }
        }
        else {
            p_template_parts(s, i, Seq::empty(), Seq::empty())
        } })
{
    reveal(p_template);
    reveal(p_template_parts);
}
pub proof fn w_template<'a>(s: Seq<Tok<'a>>, i: int)
    requires lexed(s), p_template(s, i) is Some
    ensures ({ let x = (p_template(s, i)->0).0; wf_tpl(x) })
    decreases rem(s, i), 12int, 0int
{
    u_template(s, i);
    if (at(s, i).kind is TemplateClosed) {
        let q = nd(at(s, i).quasi);
        if plain(s, i + 1) {
            assert({ let x: TemplateLiteral<'a> = TemplateLiteral { expressions: lst(Seq::empty()), quasis: lst(Seq::empty().push(q)) }; wf_tpl(x) });
        }
    }
    else {
        if p_template_parts(s, i, Seq::empty(), Seq::empty()) is Some { w_template_parts(s, i, Seq::empty(), Seq::empty()); assert({ let x: TemplateLiteral<'a> = (p_template_parts(s, i, Seq::empty(), Seq::empty())->0).0; wf_tpl(x) }); }
    }
}
/// p_template_parts, one step
pub proof fn u_template_parts<'a>(s: Seq<Tok<'a>>, i: int, qs: Seq<Node<'a, &'a str>>, es: Seq<ExpressionNode<'a>>)
    ensures p_template_parts(s, i, qs, es) == ({
        let q = nd(at(s, i).quasi);
        if (at(s, i).kind is TemplateClosed) {
            if plain(s, i + 1) {
                Some((TemplateLiteral { expressions: lst(es), quasis: lst(qs.push(q)) }, i + 1))
            } else { None }
        }
        else {
            if at(s, i).kind is TemplateOpen && plain(s, i + 1) {
                match p_expr(s, i + 1, -1, 0) {
                    Some((e, j3)) => if j3 >= i + 1 {
                        if (at(s, j3).kind is BraceClose) {
                            if in_quasi(s, j3 + 1) {
                                p_template_parts(s, j3 + 1, qs.push(q), es.push(e))
                            } else { None }
                        } else { None }
                    } else { None },
                    None => None,
                }
            } else { None }
        } })
{
    reveal(p_template_parts);
    reveal(p_expr);
}
pub proof fn w_template_parts<'a>(s: Seq<Tok<'a>>, i: int, qs: Seq<Node<'a, &'a str>>, es: Seq<ExpressionNode<'a>>)
    requires lexed(s), p_template_parts(s, i, qs, es) is Some, (forall|k: int| 0 <= k < es.len() ==> wf_expr(*(#[trigger] es[k]).item))
    ensures ({ let x = (p_template_parts(s, i, qs, es)->0).0; wf_tpl(x) })
    decreases rem(s, i), 11int, 0int
{
    u_template_parts(s, i, qs, es);
    let q = nd(at(s, i).quasi);
    if (at(s, i).kind is TemplateClosed) {
        if plain(s, i + 1) {
            assert({ let x: TemplateLiteral<'a> = TemplateLiteral { expressions: lst(es), quasis: lst(qs.push(q)) }; wf_tpl(x) });
        }
    }
    else {
        if at(s, i).kind is TemplateOpen && plain(s, i + 1) {
            if let Some((e, j1)) = p_expr(s, i + 1, -1, 0) {
                if j1 >= i + 1 {
                    w_expr(s, i + 1, -1, 0);
                    if (at(s, j1).kind is BraceClose) {
                        if in_quasi(s, j1 + 1) {
                            if p_template_parts(s, j1 + 1, qs.push(q), es.push(e)) is Some { w_template_parts(s, j1 + 1, qs.push(q), es.push(e)); assert({ let x: TemplateLiteral<'a> = (p_template_parts(s, j1 + 1, qs.push(q), es.push(e))->0).0; wf_tpl(x) }); }
                        }
                    }
                }
            }
        }
    }
}
}
pub use vx_wf34::*;
