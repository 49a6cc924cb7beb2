// written by gen_parser_fns.py
@fn Token::is_word -> ret
    ensures [P03] ret == is_word(*$0)
@fn OperatorKind::from_token -> ret
    ensures [O02,P03] is_assign($0) || is_binary($0) || is_unary($0) ==> ret == Some(operator($0))
@fn Expression::is_lvalue -> ret
    ensures [O01,P03] ret == lvalue(*$0)
@fn Loc::new -> ret
    ensures ret.item == $2
    ensures [N01] ret.start == $0 && ret.end == $1
@fn Parser::loc -> ret
    ensures [N01] placed(ret.0) && placed(ret.1)
@fn Parser::in_loc -> ret
    ensures ret.item == $1
    ensures [N01] placed(ret.start) && placed(ret.end)
@fn Parser::alloc -> ret
    requires [N01] placed($1.start) && placed($1.end)
    ensures *final($0) == *old($0)
    ensures ret == nd::<T>($1.item)
@fn Parser::alloc_in_loc -> ret
    ensures *final($0) == *old($0)
    ensures ret == nd::<T>(T::mk($1))
@fn Parser::alloc_at_loc -> ret
    requires [N01] placed($1)
    requires [N01] placed($2)
    ensures *final($0) == *old($0)
    ensures ret == nd::<T>(T::mk($3))
@fn Parser::asi -> ret
    ensures *final($0) == *old($0)
    ensures [P02,P03] ret == asi(old($0).lexer.t())
@fn Parser::error -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P01] final($0).errors@.len() == old($0).errors@.len() + 1
    ensures old($0).k() is EndOfProgram ==> final($0).i() == old($0).i()
@fn Parser::expect_semicolon -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P02,P03] p_semi(old($0).s(), old($0).i()) == got(*old($0), *final($0), ())
@fn Parser::block_end -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] popped(*old($0), *final($0), Br::Brace)
    ensures [P03] p_block_end(old($0).s(), old($0).i()) == got(*old($0), *final($0), ())
    ensures [N01] placed(ret)
@fn Parser::identifier -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P03] p_ident(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
@fn Parser::bound_expression -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_head(old($0).s(), old($0).i(), 0) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 8int
@fn Parser::context_bound_expression -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [O01,P03] p_head(old($0).s(), old($0).i(), cx($1)) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 8int
@fn Parser::expression -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_expr(old($0).s(), old($0).i(), B::thr(), 0) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 9int
    proof:
        reveal(p_expr);
@fn Parser::expression_in_context -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [O01,P03] p_expr(old($0).s(), old($0).i(), B::thr(), cx($1)) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 9int
    proof:
        reveal(p_expr);
@fn Parser::nested_expression -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [O01,P03] p_tail(old($0).s(), old($0).i(), $1, B::thr()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 4int
    proof:
        reveal(p_tail);
        let ghost vx_left = left;
    loop 0:
    invariant kept(*old(self), *self)
    invariant [P01] ok_errs(*old(self), *self)
    invariant [P01] even(*old(self), *self)
    invariant_except_break [O01,P02,P03] p_tail(old(self).s(), old(self).i(), vx_left, B::thr()) == then(*old(self), *self, p_tail(self.s(), self.i(), left, B::thr()))
    ensures [O01,P02,P03] p_tail(old(self).s(), old(self).i(), vx_left, B::thr()) == got(*old(self), *self, left)
    decreases [P01] rem(self.s(), self.i())
@fn nested_SEQ -> ret
    requires (old($0).k() is Comma)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
        reveal(p_sequence);
    loop 0:
    invariant kept(*old(par), *par)
    invariant [P01] ok_errs(*old(par), *par)
    invariant [P01] even(*old(par), *par)
    invariant par.i() > old(par).i()
    invariant_except_break [O01,P03] p_op(old(par).s(), old(par).i(), left) == then(*old(par), *par, map_seq(p_sequence(par.s(), par.i(), builder.q@)))
    ensures [O01,P03] p_op(old(par).s(), old(par).i(), left) == got(*old(par), *par, nd(Expression::Sequence(SequenceExpression { body: lst(builder.q@) })))
    decreases [P01] rem(par.s(), par.i())
@fn nested_COND -> ret
    requires (old($0).k() is OperatorConditional)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_ARRW -> ret
    requires (old($0).k() is OperatorFatArrow)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_ACCS -> ret
    requires (old($0).k() is Accessor)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_CALL -> ret
    requires (old($0).k() is ParenOpen)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_CMEM -> ret
    requires (old($0).k() is BracketOpen)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_TPLS -> ret
    requires (old($0).k() is TemplateClosed)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_TPLE -> ret
    requires (old($0).k() is TemplateOpen)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
@fn nested_INC -> ret
    requires (old($0).k() is OperatorIncrement)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_DEC -> ret
    requires (old($0).k() is OperatorDecrement)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_MUL -> ret
    requires (old($0).k() is OperatorMultiplication)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_DIV -> ret
    requires (old($0).k() is OperatorDivision)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_REM -> ret
    requires (old($0).k() is OperatorRemainder)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_EXPN -> ret
    requires (old($0).k() is OperatorExponent)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_ADD -> ret
    requires (old($0).k() is OperatorAddition)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_SUB -> ret
    requires (old($0).k() is OperatorSubtraction)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_BSL -> ret
    requires (old($0).k() is OperatorBitShiftLeft)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_BSR -> ret
    requires (old($0).k() is OperatorBitShiftRight)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_UBSR -> ret
    requires (old($0).k() is OperatorUBitShiftRight)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_LESS -> ret
    requires (old($0).k() is OperatorLesser)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_LSEQ -> ret
    requires (old($0).k() is OperatorLesserEquals)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_GRTR -> ret
    requires (old($0).k() is OperatorGreater)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_GREQ -> ret
    requires (old($0).k() is OperatorGreaterEquals)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_INOF -> ret
    requires (old($0).k() is OperatorInstanceof)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_IN -> ret
    requires (old($0).k() is OperatorIn)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_STEQ -> ret
    requires (old($0).k() is OperatorStrictEquality)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_SIEQ -> ret
    requires (old($0).k() is OperatorStrictInequality)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_EQ -> ret
    requires (old($0).k() is OperatorEquality)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_INEQ -> ret
    requires (old($0).k() is OperatorInequality)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_BWAN -> ret
    requires (old($0).k() is OperatorBitwiseAnd)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_BWXO -> ret
    requires (old($0).k() is OperatorBitwiseXor)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_BWOR -> ret
    requires (old($0).k() is OperatorBitwiseOr)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_AND -> ret
    requires (old($0).k() is OperatorLogicalAnd)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_OR -> ret
    requires (old($0).k() is OperatorLogicalOr)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_ASGN -> ret
    requires (old($0).k() is OperatorAssign)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_ADDA -> ret
    requires (old($0).k() is OperatorAddAssign)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_SUBA -> ret
    requires (old($0).k() is OperatorSubtractAssign)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_EXPA -> ret
    requires (old($0).k() is OperatorExponentAssign)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_MULA -> ret
    requires (old($0).k() is OperatorMultiplyAssign)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_DIVA -> ret
    requires (old($0).k() is OperatorDivideAssign)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_REMA -> ret
    requires (old($0).k() is OperatorRemainderAssign)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_BSLA -> ret
    requires (old($0).k() is OperatorBSLAssign)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_BSRA -> ret
    requires (old($0).k() is OperatorBSRAssign)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_UBSA -> ret
    requires (old($0).k() is OperatorUBSRAssign)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_BWAA -> ret
    requires (old($0).k() is OperatorBitAndAssign)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_XORA -> ret
    requires (old($0).k() is OperatorBitXorAssign)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@fn nested_BORA -> ret
    requires (old($0).k() is OperatorBitOrAssign)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_op);
@handler NestedHandler
    requires vx_pre_NestedHandler(#h, old($0).k())
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 2int + #rank
@fn Parser::arrow_function_expression -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [O01,P03] p_arrow(old($0).s(), old($0).i(), $1.q@) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 10int
    proof:
        reveal(p_arrow);
@fn Parser::pattern_from_expression -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P03] with(pattern_of($1), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] $1
@fn Parser::params_from_expressions -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P03] with_lst(patterns_of($1.q@, 0, Seq::empty()), old($0).i()) == got(*old($0), *final($0), ret)
    proof:
        let ghost vx_q = expressions.q@;
    loop 0:
    invariant kept(*old(self), *self)
    invariant [P01] ok_errs(*old(self), *self)
    invariant [P01] even(*old(self), *self)
    invariant expressions.q@ == vx_q, 0 <= expressions.k@ <= vx_q.len()
    invariant clean(*old(self), *self) ==> self.i() == old(self).i()
    invariant_except_break [P03] patterns_of(vx_q, 0, Seq::empty()) == if clean(*old(self), *self) { patterns_of(vx_q, expressions.k@, builder.q@) } else { None }
    ensures [P03] patterns_of(vx_q, 0, Seq::empty()) == if clean(*old(self), *self) { Some(builder.q@) } else { None }
    decreases vx_q.len() - expressions.k@
@fn Parser::call_arguments -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [O01,P03] map_lst(p_arguments(old($0).s(), old($0).i())) == got(*old($0), *final($0), ret)
    ensures [P01,P03] clean(*old($0), *final($0)) ==> final($0).k() is ParenClose
    decreases [P01] rem(old($0).s(), old($0).i()), 10int
    proof:
        reveal(p_arguments);
        reveal(p_arguments_rest);
    loop 0:
    invariant kept(*old(self), *self)
    invariant [P01] ok_errs(*old(self), *self)
    invariant_except_break [P01] even(*old(self), *self)
    invariant_except_break [P03] p_arguments(old(self).s(), old(self).i()) == then(*old(self), *self, p_arguments_rest(self.s(), self.i(), builder.q@))
    ensures [P01] even(*old(self), *self)
    ensures [P03] p_arguments(old(self).s(), old(self).i()) == got(*old(self), *self, builder.q@)
    ensures [P01,P03] clean(*old(self), *self) ==> self.k() is ParenClose
    decreases [P01] rem(self.s(), self.i())
@fn Parser::paren_expression -> ret
    requires (old($0).k() is ParenOpen)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P02,P03] p_head(old($0).s(), old($0).i(), 0) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 1) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 2) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 0int
    proof:
        reveal(p_head);
@fn Parser::prefix_expression -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [O01,P03] ret.operator == $1 && p_expr(old($0).s(), old($0).i(), 150, 0) == got(*old($0), *final($0), ret.operand)
    decreases [P01] rem(old($0).s(), old($0).i()), 10int
@fn Parser::new_expression -> ret
    requires !(old($0).k() is Accessor)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [O01,P03] p_new(old($0).s(), old($0).i()) == got(*old($0), *final($0), nd(Expression::Prefix(ret)))
    decreases [P01] rem(old($0).s(), old($0).i()), 10int
    proof:
        reveal(p_new);
@fn Parser::meta_property_expression -> ret
    requires (old($0).k() is Accessor)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P03] ret.meta == $1 && ret.property == nd(old($0).lexer.t().acc)
    ensures [P03] clean(*old($0), *final($0)) <==> old($0).lexer.t().acc == lit(127978876068212)
    ensures clean(*old($0), *final($0)) ==> *final($0) == *old($0)
@fn Parser::object_expression -> ret
    requires (old($0).k() is BraceOpen)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_head(old($0).s(), old($0).i(), 0) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 1) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 2) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 0int
    proof:
        reveal(p_head);
@fn Parser::property_list -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P03] map_lst(p_properties(old($0).s(), old($0).i())) == got(*old($0), *final($0), ret)
    ensures [P01,P03] clean(*old($0), *final($0)) ==> final($0).k() is BraceClose
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
    proof:
        reveal(p_properties);
        reveal(p_properties_rest);
    loop 0:
    invariant kept(*old(self), *self)
    invariant [P01] ok_errs(*old(self), *self)
    invariant_except_break [P01] even(*old(self), *self)
    invariant_except_break [P03] p_properties(old(self).s(), old(self).i()) == then(*old(self), *self, p_properties_rest(self.s(), self.i(), builder.q@))
    ensures [P01] even(*old(self), *self)
    ensures [P03] p_properties(old(self).s(), old(self).i()) == got(*old(self), *self, builder.q@)
    ensures [P01,P03] clean(*old(self), *self) ==> self.k() is BraceClose
    decreases [P01] rem(self.s(), self.i())
@fn Parser::property -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_property(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 10int
    proof:
        reveal(p_property);
@fn Parser::array_expression -> ret
    requires (old($0).k() is BracketOpen)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_head(old($0).s(), old($0).i(), 0) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 1) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 2) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 0int
    proof:
        reveal(p_head);
@fn Parser::array_elements_array -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P03] map_lst(p_array_items(old($0).s(), old($0).i())) == got(*old($0), *final($0), ret)
    ensures [P01,P03] clean(*old($0), *final($0)) ==> final($0).k() is BracketClose
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
    proof:
        reveal(p_array_items);
        reveal(p_array_items_rest);
    loop 0:
    invariant kept(*old(self), *self)
    invariant [P01] ok_errs(*old(self), *self)
    invariant_except_break [P01] even(*old(self), *self)
    invariant_except_break [P03] p_array_items(old(self).s(), old(self).i()) == then(*old(self), *self, p_array_items_rest(self.s(), self.i(), builder.q@))
    ensures [P01] even(*old(self), *self)
    ensures [P03] p_array_items(old(self).s(), old(self).i()) == got(*old(self), *self, builder.q@)
    ensures [P01,P03] clean(*old(self), *self) ==> self.k() is BracketClose
    decreases [P01] rem(self.s(), self.i())
@fn Parser::array_elements_pattern -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P03] map_lst(p_pattern_items(old($0).s(), old($0).i())) == got(*old($0), *final($0), ret)
    ensures [P01,P03] clean(*old($0), *final($0)) ==> final($0).k() is BracketClose
    decreases [P01] rem(old($0).s(), old($0).i()), 13int
    proof:
        reveal(p_pattern_items);
        reveal(p_pattern_items_rest);
    loop 0:
    invariant kept(*old(self), *self)
    invariant [P01] ok_errs(*old(self), *self)
    invariant_except_break [P01] even(*old(self), *self)
    invariant_except_break [P03] p_pattern_items(old(self).s(), old(self).i()) == then(*old(self), *self, p_pattern_items_rest(self.s(), self.i(), builder.q@))
    ensures [P01] even(*old(self), *self)
    ensures [P03] p_pattern_items(old(self).s(), old(self).i()) == got(*old(self), *self, builder.q@)
    ensures [P01,P03] clean(*old(self), *self) ==> self.k() is BracketClose
    decreases [P01] rem(self.s(), self.i())
@fn vx_get_array -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P03] p_expr(old($0).s(), old($0).i(), 0, 1) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 10int
@fn vx_get_pattern -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P03] p_pattern_item(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 12int
@fn Parser::void_expression -> ret
    ensures *final($0) == *old($0)
    ensures [P03] ret == nd(Expression::Void)
@fn Parser::regular_expression -> ret
    requires (old($0).k() is OperatorDivision)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_head(old($0).s(), old($0).i(), 0) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 1) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 2) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_head);
@fn Parser::template_string -> ret
    requires (old($0).k() is TemplateClosed)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] map_nd::<TemplateLiteral<'ast>, T>(p_template(old($0).s(), old($0).i())) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_template);
@fn Parser::template_literal -> ret
    requires (old($0).k() is TemplateOpen)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] map_nd::<TemplateLiteral<'ast>, T>(p_template(old($0).s(), old($0).i())) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 0int
    proof:
        reveal(p_template);
        reveal(p_template_parts);
    loop 0:
    invariant kept(*old(self), *self)
    invariant [P01] ok_errs(*old(self), *self)
    invariant_except_break [P01] even(*old(self), *self)
    invariant self.i() > old(self).i()
    invariant_except_break [P03] p_template(old(self).s(), old(self).i()) == then(*old(self), *self, p_template_parts(self.s(), self.i(), quasis.q@, expressions.q@))
    invariant_except_break [P03] clean(*old(self), *self) ==> in_quasi(self.s(), self.i())
    ensures [N01] placed(end)
    ensures [P01] even(*old(self), *self)
    ensures [P03] p_template(old(self).s(), old(self).i()) == got(*old(self), *self, TemplateLiteral { expressions: lst(expressions.q@), quasis: lst(quasis.q@) })
    decreases [P01] rem(self.s(), self.i())
@fn Parser::template_expression -> ret
    requires (old($0).k() is TemplateOpen)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_head(old($0).s(), old($0).i(), 0) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 1) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 2) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 1int
    proof:
        reveal(p_head);
@fn Parser::tagged_template_expression -> ret
    requires (old($0).k() is TemplateOpen)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_op(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 1int
    proof:
        reveal(p_op);
@fn Parser::function_expression -> ret
    requires (old($0).k() is Function)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_head(old($0).s(), old($0).i(), 0) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 1) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 2) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 0int
    proof:
        reveal(p_head);
@fn Parser::class_expression -> ret
    requires (old($0).k() is Class)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_head(old($0).s(), old($0).i(), 0) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 1) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 2) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 0int
    proof:
        reveal(p_head);
@fn expression_OBJ -> ret
    requires (old($0).k() is BraceOpen)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_head(old($0).s(), old($0).i(), 0) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 1) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 2) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 5int
@fn expression_CLAS -> ret
    requires (old($0).k() is Class)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_head(old($0).s(), old($0).i(), 0) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 1) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 2) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 5int
@fn expression_FUNC -> ret
    requires (old($0).k() is Function)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_head(old($0).s(), old($0).i(), 0) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 1) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 2) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 5int
@fn expression_IDEN -> ret
    requires (old($0).k() is Identifier)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_head(old($0).s(), old($0).i(), 0) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 1) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 2) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 5int
    proof:
        reveal(p_head);
@fn expression_THIS -> ret
    requires (old($0).k() is This)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_head(old($0).s(), old($0).i(), 0) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 1) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 2) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 5int
    proof:
        reveal(p_head);
@fn handlers_THIS -> ret
    requires (old($0).k() is This)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
    proof:
        reveal(p_statement);
        reveal(p_head);
        let ghost vx_head = p_head(old(par).s(), old(par).i(), 0);
@fn expression_NEW -> ret
    requires (old($0).k() is OperatorNew)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_head(old($0).s(), old($0).i(), 0) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 1) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 2) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 5int
    proof:
        reveal(p_head);
        reveal(p_new);
@fn handlers_NEW -> ret
    requires (old($0).k() is OperatorNew)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
    proof:
        reveal(p_statement);
        reveal(p_head);
        reveal(p_new);
        let ghost vx_head = p_head(old(par).s(), old(par).i(), 0);
@fn expression_PRN -> ret
    requires (old($0).k() is ParenOpen)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P02,P03] p_head(old($0).s(), old($0).i(), 0) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 1) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 2) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 5int
@fn handlers_PRN -> ret
    requires (old($0).k() is ParenOpen)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,P02,P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
    proof:
        reveal(p_statement);
        let ghost vx_head = p_head(old(par).s(), old(par).i(), 0);
@fn expression_ARR -> ret
    requires (old($0).k() is BracketOpen)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_head(old($0).s(), old($0).i(), 0) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 1) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 2) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 5int
@fn handlers_ARR -> ret
    requires (old($0).k() is BracketOpen)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
    proof:
        reveal(p_statement);
        let ghost vx_head = p_head(old(par).s(), old(par).i(), 0);
@fn expression_REG -> ret
    requires (old($0).k() is OperatorDivision)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_head(old($0).s(), old($0).i(), 0) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 1) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 2) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 5int
@fn handlers_REG -> ret
    requires (old($0).k() is OperatorDivision)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
    proof:
        reveal(p_statement);
        let ghost vx_head = p_head(old(par).s(), old(par).i(), 0);
@fn expression_TRUE -> ret
    requires (old($0).k() is LiteralTrue)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_head(old($0).s(), old($0).i(), 0) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 1) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 2) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 5int
    proof:
        reveal(p_head);
@fn handlers_TRUE -> ret
    requires (old($0).k() is LiteralTrue)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
    proof:
        reveal(p_statement);
        reveal(p_head);
        let ghost vx_head = p_head(old(par).s(), old(par).i(), 0);
@fn expression_FALS -> ret
    requires (old($0).k() is LiteralFalse)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_head(old($0).s(), old($0).i(), 0) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 1) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 2) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 5int
    proof:
        reveal(p_head);
@fn handlers_FALS -> ret
    requires (old($0).k() is LiteralFalse)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
    proof:
        reveal(p_statement);
        reveal(p_head);
        let ghost vx_head = p_head(old(par).s(), old(par).i(), 0);
@fn expression_NULL -> ret
    requires (old($0).k() is LiteralNull)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_head(old($0).s(), old($0).i(), 0) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 1) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 2) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 5int
    proof:
        reveal(p_head);
@fn handlers_NULL -> ret
    requires (old($0).k() is LiteralNull)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
    proof:
        reveal(p_statement);
        reveal(p_head);
        let ghost vx_head = p_head(old(par).s(), old(par).i(), 0);
@fn expression_UNDE -> ret
    requires (old($0).k() is LiteralUndefined)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_head(old($0).s(), old($0).i(), 0) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 1) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 2) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 5int
    proof:
        reveal(p_head);
@fn handlers_UNDE -> ret
    requires (old($0).k() is LiteralUndefined)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
    proof:
        reveal(p_statement);
        reveal(p_head);
        let ghost vx_head = p_head(old(par).s(), old(par).i(), 0);
@fn expression_STR -> ret
    requires (old($0).k() is LiteralString)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_head(old($0).s(), old($0).i(), 0) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 1) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 2) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 5int
    proof:
        reveal(p_head);
@fn handlers_STR -> ret
    requires (old($0).k() is LiteralString)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
    proof:
        reveal(p_statement);
        reveal(p_head);
        let ghost vx_head = p_head(old(par).s(), old(par).i(), 0);
@fn expression_NUM -> ret
    requires (old($0).k() is LiteralNumber)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_head(old($0).s(), old($0).i(), 0) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 1) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 2) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 5int
    proof:
        reveal(p_head);
@fn handlers_NUM -> ret
    requires (old($0).k() is LiteralNumber)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
    proof:
        reveal(p_statement);
        reveal(p_head);
        let ghost vx_head = p_head(old(par).s(), old(par).i(), 0);
@fn expression_BIN -> ret
    requires (old($0).k() is LiteralBinary)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_head(old($0).s(), old($0).i(), 0) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 1) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 2) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 5int
    proof:
        reveal(p_head);
@fn handlers_BIN -> ret
    requires (old($0).k() is LiteralBinary)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
    proof:
        reveal(p_statement);
        reveal(p_head);
        let ghost vx_head = p_head(old(par).s(), old(par).i(), 0);
@fn expression_TPLS -> ret
    requires (old($0).k() is TemplateClosed)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_head(old($0).s(), old($0).i(), 0) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 1) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 2) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 5int
    proof:
        reveal(p_head);
        reveal(p_template);
@fn handlers_TPLS -> ret
    requires (old($0).k() is TemplateClosed)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
    proof:
        reveal(p_statement);
        reveal(p_head);
        reveal(p_template);
        let ghost vx_head = p_head(old(par).s(), old(par).i(), 0);
@fn expression_TPLE -> ret
    requires (old($0).k() is TemplateOpen)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_head(old($0).s(), old($0).i(), 0) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 1) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 2) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 5int
@fn handlers_TPLE -> ret
    requires (old($0).k() is TemplateOpen)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
    proof:
        reveal(p_statement);
        let ghost vx_head = p_head(old(par).s(), old(par).i(), 0);
@fn expression_OP -> ret
    requires (old($0).k() is OperatorIncrement || old($0).k() is OperatorDecrement || old($0).k() is OperatorLogicalNot || old($0).k() is OperatorBitwiseNot || old($0).k() is OperatorTypeof || old($0).k() is OperatorVoid || old($0).k() is OperatorDelete || old($0).k() is OperatorAddition || old($0).k() is OperatorSubtraction)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,O02,P03] p_head(old($0).s(), old($0).i(), 0) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 1) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 2) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 5int
    proof:
        reveal(p_head);
@fn handlers_OP -> ret
    requires (old($0).k() is OperatorIncrement || old($0).k() is OperatorDecrement || old($0).k() is OperatorLogicalNot || old($0).k() is OperatorBitwiseNot || old($0).k() is OperatorTypeof || old($0).k() is OperatorVoid || old($0).k() is OperatorDelete || old($0).k() is OperatorAddition || old($0).k() is OperatorSubtraction)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [O01,O02,P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
    proof:
        reveal(p_statement);
        reveal(p_head);
        let ghost vx_head = p_head(old(par).s(), old(par).i(), 0);
@fn expression_VOID -> ret
    requires (old($0).k() is Comma || old($0).k() is BracketClose)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P03] p_head(old($0).s(), old($0).i(), 1) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 5int
    proof:
        reveal(p_head);
@fn expression_SPRD -> ret
    requires (old($0).k() is OperatorSpread)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_head(old($0).s(), old($0).i(), 1) == got(*old($0), *final($0), ret) && p_head(old($0).s(), old($0).i(), 2) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 5int
    proof:
        reveal(p_head);
@fn expression_____ -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] (starts_expression(old($0).k(), 0) || p_head(old($0).s(), old($0).i(), 0) == got(*old($0), *final($0), ret)) && (starts_expression(old($0).k(), 1) || p_head(old($0).s(), old($0).i(), 1) == got(*old($0), *final($0), ret)) && (starts_expression(old($0).k(), 2) || p_head(old($0).s(), old($0).i(), 2) == got(*old($0), *final($0), ret))
    ensures [P01,P03] !clean(*old($0), *final($0))
    decreases [P01] rem(old($0).s(), old($0).i()), 5int
    proof:
        reveal(p_head);
@fn statement_____ -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] starts_statement(old($0).k()) || p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    ensures [P01,P03] !clean(*old($0), *final($0))
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
    proof:
        reveal(p_statement);
@fn vx_jump_DEF_CONTEXT -> ret
    requires $0 == old($1).k()
    ensures kept(*old($1), *final($1))
    ensures [P01] ok_errs(*old($1), *final($1))
    ensures [P01] even(*old($1), *final($1))
    ensures [P01] went(*old($1), *final($1))
    ensures [O01,P03] p_head(old($1).s(), old($1).i(), 0) == got(*old($1), *final($1), ret)
    decreases [P01] rem(old($1).s(), old($1).i()), 6int
@fn vx_jump_ARRAY_CONTEXT -> ret
    requires $0 == old($1).k()
    ensures kept(*old($1), *final($1))
    ensures [P01] ok_errs(*old($1), *final($1))
    ensures [P01] even(*old($1), *final($1))
    ensures [O01,P03] p_head(old($1).s(), old($1).i(), 1) == got(*old($1), *final($1), ret)
    decreases [P01] rem(old($1).s(), old($1).i()), 6int
@fn vx_jump_CALL_CONTEXT -> ret
    requires $0 == old($1).k()
    ensures kept(*old($1), *final($1))
    ensures [P01] ok_errs(*old($1), *final($1))
    ensures [P01] even(*old($1), *final($1))
    ensures [P01] went(*old($1), *final($1))
    ensures [O01,P03] p_head(old($1).s(), old($1).i(), 2) == got(*old($1), *final($1), ret)
    decreases [P01] rem(old($1).s(), old($1).i()), 6int
@fn vx_jump_Context -> ret
    requires $1 == old($2).k()
    ensures kept(*old($2), *final($2))
    ensures [P01] ok_errs(*old($2), *final($2))
    ensures [P01] even(*old($2), *final($2))
    ensures [O01,P03] p_head(old($2).s(), old($2).i(), cx($0)) == got(*old($2), *final($2), ret)
    decreases [P01] rem(old($2).s(), old($2).i()), 7int
@fn vx_jump_STMT_HANDLERS -> ret
    requires $0 == old($1).k()
    ensures kept(*old($1), *final($1))
    ensures [P01] ok_errs(*old($1), *final($1))
    ensures [P01] even(*old($1), *final($1))
    ensures [P01] went(*old($1), *final($1))
    ensures [P03] p_statement(old($1).s(), old($1).i()) == got(*old($1), *final($1), ret)
    decreases [P01] rem(old($1).s(), old($1).i()), 12int
    ensures [P01] old($1).k() is EndOfProgram ==> !clean(*old($1), *final($1))
@fn Parser::statement -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    ensures [P01] old($0).k() is EndOfProgram ==> !clean(*old($0), *final($0))
    decreases [P01] rem(old($0).s(), old($0).i()), 13int
@fn parse_statement -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    ensures [P01] old($0).k() is EndOfProgram ==> !clean(*old($0), *final($0))
    decreases [P01] rem(old($0).s(), old($0).i()), 14int
@fn Parser::expression_statement -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P03] p_expression_end(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 10int
    proof:
        reveal(p_expression_end);
@fn Parser::wrap_expression -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P02,P03] put(p_semi(old($0).s(), old($0).i()), nd(Statement::Expression($1))) == got(*old($0), *final($0), ret)
@fn statement_EMPT -> ret
    requires (old($0).k() is Semicolon)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
    proof:
        reveal(p_statement);
@fn statement_DBGGR -> ret
    requires (old($0).k() is Debugger)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P02,P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
    proof:
        reveal(p_statement);
@fn statement_BLCK -> ret
    requires (old($0).k() is BraceOpen)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
@fn Parser::block_statement -> ret
    requires (old($0).k() is BraceOpen)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 0int
    proof:
        reveal(p_statement);
        reveal(p_statements);
@fn statement_VAR -> ret
    requires (old($0).k() is DeclarationVar)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P02,P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
    proof:
        reveal(p_statement);
@fn statement_LET -> ret
    requires (old($0).k() is DeclarationLet)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P02,P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
    proof:
        reveal(p_statement);
@fn statement_CONS -> ret
    requires (old($0).k() is DeclarationConst)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P02,P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
    proof:
        reveal(p_statement);
@fn statement_RET -> ret
    requires (old($0).k() is Return)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P02,P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
@fn Parser::return_statement -> ret
    requires (old($0).k() is Return)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P02,P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 0int
    proof:
        reveal(p_statement);
@fn statement_BRK -> ret
    requires (old($0).k() is Break)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P02,P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
@fn Parser::break_statement -> ret
    requires (old($0).k() is Break)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P02,P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_statement);
@fn statement_THRW -> ret
    requires (old($0).k() is Throw)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P02,P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
@fn Parser::throw_statement -> ret
    requires (old($0).k() is Throw)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P02,P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 0int
    proof:
        reveal(p_statement);
@fn statement_CONT -> ret
    requires (old($0).k() is Continue)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P02,P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
@fn Parser::continue_statement -> ret
    requires (old($0).k() is Continue)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P02,P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_statement);
@fn statement_FUNC -> ret
    requires (old($0).k() is Function)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
@fn Parser::function_statement -> ret
    requires (old($0).k() is Function)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 0int
    proof:
        reveal(p_statement);
@fn statement_CLAS -> ret
    requires (old($0).k() is Class)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
@fn Parser::class_statement -> ret
    requires (old($0).k() is Class)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 0int
    proof:
        reveal(p_statement);
@fn statement_IF -> ret
    requires (old($0).k() is If)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
@fn Parser::if_statement -> ret
    requires (old($0).k() is If)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 0int
    proof:
        reveal(p_statement);
@fn statement_WHL -> ret
    requires (old($0).k() is While)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
@fn Parser::while_statement -> ret
    requires (old($0).k() is While)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 0int
    proof:
        reveal(p_statement);
@fn statement_DO -> ret
    requires (old($0).k() is Do)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P02,P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
@fn Parser::do_statement -> ret
    requires (old($0).k() is Do)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P02,P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 0int
    proof:
        reveal(p_statement);
@fn statement_FOR -> ret
    requires (old($0).k() is For)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
@fn Parser::for_statement -> ret
    requires (old($0).k() is For)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 0int
    proof:
        reveal(p_statement);
@fn statement_TRY -> ret
    requires (old($0).k() is Try)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
@fn Parser::try_statement -> ret
    requires (old($0).k() is Try)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 0int
    proof:
        reveal(p_statement);
@fn statement_SWCH -> ret
    requires (old($0).k() is Switch)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
@fn Parser::switch_statement -> ret
    requires (old($0).k() is Switch)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 0int
    proof:
        reveal(p_statement);
@fn statement_LABL -> ret
    requires (old($0).k() is Identifier)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P02,P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
@fn Parser::labeled_or_expression_statement -> ret
    requires (old($0).k() is Identifier)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P02,P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 10int
    proof:
        reveal(p_statement);
@fn statement_IMPT -> ret
    requires (old($0).k() is Import)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
@fn Parser::import_declaration -> ret
    requires (old($0).k() is Import)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_statement(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 0int
    proof:
        reveal(p_statement);
        reveal(p_import_names);
        reveal(p_import_next);
        reveal(p_import_from);
    loop 0:
    invariant kept(*old(self), *self)
    invariant [P01] ok_errs(*old(self), *self)
    invariant_except_break [P01] even_in(*old(self), *self)
    invariant self.i() > old(self).i()
    invariant_except_break [P03] p_statement(old(self).s(), old(self).i()) == then(*old(self), *self, p_import_names(self.s(), self.i(), builder.q@))
    ensures [P01] even(*old(self), *self)
    ensures [P03] p_statement(old(self).s(), old(self).i()) == then(*old(self), *self, p_import_from(self.s(), self.i(), builder.q@))
    decreases [P01] rem(self.s(), self.i())
@fn Parser::variable_declaration_statement -> ret
    requires (old($0).k() is DeclarationVar || old($0).k() is DeclarationLet || old($0).k() is DeclarationConst)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P02,P03] p_variable(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 0int
    proof:
        reveal(p_variable);
@fn Parser::variable_declarator -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P03] p_declarator(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 12int
    proof:
        reveal(p_declarator);
@fn Parser::variable_declarators -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P03] p_declarators(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 13int
    proof:
        reveal(p_declarators);
        reveal(p_declarators_more);
    loop 0:
    invariant kept(*old(self), *self)
    invariant [P01] ok_errs(*old(self), *self)
    invariant [P01] even(*old(self), *self)
    invariant [P03] p_declarators(old(self).s(), old(self).i()) == then(*old(self), *self, p_declarators_more(self.s(), self.i(), builder.q@))
    decreases [P01] rem(self.s(), self.i())
@fn Parser::for_init -> ret
    requires (old($0).k() is DeclarationVar || old($0).k() is DeclarationLet || old($0).k() is DeclarationConst)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P03] p_for_init(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 0int
    proof:
        reveal(p_for_init);
@fn Parser::for_in_statement -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] popped(*old($0), *final($0), Br::Paren)
    ensures [P03] p_for_in(old($0).s(), old($0).i(), $2) == got(*old($0), *final($0), ret)
    requires [N01] placed($1)
    decreases [P01] rem(old($0).s(), old($0).i()), 16int
    proof:
        reveal(p_for_in);
@fn Parser::for_of_statement -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] popped(*old($0), *final($0), Br::Paren)
    ensures [P03] p_for_of(old($0).s(), old($0).i(), $2) == got(*old($0), *final($0), ret)
    requires [N01] placed($1)
    decreases [P01] rem(old($0).s(), old($0).i()), 16int
    proof:
        reveal(p_for_of);
@fn Parser::raw_block_statement -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P03] old($0).k() is EndOfProgram || map_block(p_statements(old($0).s(), old($0).i(), Seq::empty())) == got(*old($0), *final($0), ret)
    ensures [P01] old($0).k() is EndOfProgram ==> !clean(*old($0), *final($0))
    decreases [P01] rem(old($0).s(), old($0).i()), 16int
    proof:
        reveal(p_statements);
    loop 0:
    invariant kept(*old(self), *self)
    invariant [P01] ok_errs(*old(self), *self)
    invariant [P01] even(*old(self), *self)
    invariant old(self).k() is EndOfProgram ==> !clean(*old(self), *self)
    invariant [P03] old(self).k() is EndOfProgram || p_statements(old(self).s(), old(self).i(), Seq::empty()) == then(*old(self), *self, p_statements(self.s(), self.i(), builder.q@))
    decreases [P01] rem(self.s(), self.i())
@fn Parser::raw_block_case -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P03] old($0).k() is EndOfProgram || map_block(p_cases(old($0).s(), old($0).i(), Seq::empty())) == got(*old($0), *final($0), ret)
    ensures [P01] old($0).k() is EndOfProgram ==> !clean(*old($0), *final($0))
    decreases [P01] rem(old($0).s(), old($0).i()), 16int
    proof:
        reveal(p_cases);
    loop 0:
    invariant kept(*old(self), *self)
    invariant [P01] ok_errs(*old(self), *self)
    invariant [P01] even(*old(self), *self)
    invariant old(self).k() is EndOfProgram ==> !clean(*old(self), *self)
    invariant [P03] old(self).k() is EndOfProgram || p_cases(old(self).s(), old(self).i(), Seq::empty()) == then(*old(self), *self, p_cases(self.s(), self.i(), builder.q@))
    decreases [P01] rem(self.s(), self.i())
@fn Parser::raw_block_member -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P03] old($0).k() is EndOfProgram || map_block(p_members(old($0).s(), old($0).i(), Seq::empty())) == got(*old($0), *final($0), ret)
    ensures [P01] old($0).k() is EndOfProgram ==> !clean(*old($0), *final($0))
    decreases [P01] rem(old($0).s(), old($0).i()), 16int
    proof:
        reveal(p_members);
    loop 0:
    invariant kept(*old(self), *self)
    invariant [P01] ok_errs(*old(self), *self)
    invariant [P01] even(*old(self), *self)
    invariant old(self).k() is EndOfProgram ==> !clean(*old(self), *self)
    invariant [P03] old(self).k() is EndOfProgram || p_members(old(self).s(), old(self).i(), Seq::empty()) == then(*old(self), *self, p_members(self.s(), self.i(), builder.q@))
    decreases [P01] rem(self.s(), self.i())
@fn Parser::block_body -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P03] p_block(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 17int
    proof:
        reveal(p_block);
        reveal(p_statements);
@fn Parser::unchecked_block_body -> ret
    requires (old($0).k() is BraceOpen)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P03] p_block(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 0int
    proof:
        reveal(p_block);
        reveal(p_statements);
@fn Parser::block_case -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P03] p_block_case(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 17int
    proof:
        reveal(p_block_case);
        reveal(p_cases);
@fn Parser::block_member -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P03] p_block_member(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 17int
    proof:
        reveal(p_block_member);
        reveal(p_members);
@fn parse_case -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_case(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    ensures [P01] old($0).k() is EndOfProgram ==> !clean(*old($0), *final($0))
    decreases [P01] rem(old($0).s(), old($0).i()), 15int
    proof:
        reveal(p_case);
        reveal(p_case_body);
    loop 0:
    invariant kept(*old(par), *par)
    invariant [P01] ok_errs(*old(par), *par)
    invariant [P01] even(*old(par), *par)
    invariant [N01] placed(end)
    invariant par.i() > old(par).i() || !clean(*old(par), *par) && (old(par).k() is EndOfProgram)
    invariant_except_break [P03] p_case(old(par).s(), old(par).i()) == then(*old(par), *par, map_case(p_case_body(par.s(), par.i(), builder.q@), test))
    ensures [P03] p_case(old(par).s(), old(par).i()) == got(*old(par), *par, nd(SwitchCase { test, consequent: lst(builder.q@) }))
    decreases [P01] rem(par.s(), par.i())
@fn parse_member -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P01] went(*old($0), *final($0))
    ensures [P03] p_member(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    ensures [P01] old($0).k() is EndOfProgram ==> !clean(*old($0), *final($0))
    decreases [P01] rem(old($0).s(), old($0).i()), 14int
    proof:
        reveal(p_member);
@fn parse_pattern -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P03] p_pattern(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
    proof:
        reveal(p_pattern);
@fn parse_empty_name -> ret
    ensures *final($0) == *old($0)
    ensures ret == EmptyName
@fn parse_optional_name -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P03] p_optional_name(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
@fn parse_mandatory_name -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P03] p_mandatory_name(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
@fn parse_function_empty -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P03] p_function_empty(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 18int
    proof:
        reveal(p_function_empty);
@fn parse_function_optional -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P03] p_function_optional(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 18int
    proof:
        reveal(p_function_optional);
@fn parse_class_optional -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P03] p_class_optional(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 18int
    proof:
        reveal(p_class_optional);
@fn parse_function_mandatory -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P03] p_function_mandatory(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 18int
    proof:
        reveal(p_function_mandatory);
@fn parse_class_mandatory -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P03] p_class_mandatory(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 18int
    proof:
        reveal(p_class_mandatory);
@fn parse_method -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P03] map_nd::<Function<'ast, EmptyName>, Function<'ast, EmptyName>>(p_function_empty(old($0).s(), old($0).i())) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 19int
@fn Parser::pattern_void -> ret
    ensures *final($0) == *old($0)
    ensures [P03] ret == nd(Pattern::Void)
@fn Parser::pattern_identifier -> ret
    requires (old($0).k() is Identifier)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P03] p_pattern(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    proof:
        reveal(p_pattern);
@fn Parser::pattern_array -> ret
    requires (old($0).k() is BracketOpen)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P03] p_pattern(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 0int
    proof:
        reveal(p_pattern);
@fn Parser::pattern_object -> ret
    requires (old($0).k() is BraceOpen)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P03] p_pattern(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 0int
    proof:
        reveal(p_pattern);
@fn Parser::pattern_assign -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P03] p_pattern_assign(old($0).s(), old($0).i(), $1) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 10int
    proof:
        reveal(p_pattern_assign);
@fn Parser::pattern_array_element -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P03] p_pattern_item(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
    proof:
        reveal(p_pattern_item);
        reveal(p_param);
        reveal(p_pattern);
@fn Parser::pattern_param -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P03] p_param(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 11int
    proof:
        reveal(p_param);
        reveal(p_pattern);
@fn Parser::rest_element -> ret
    requires (old($0).k() is OperatorSpread)
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] popped(*old($0), *final($0), Br::Paren)
    ensures [P03] p_rest_element(old($0).s(), old($0).i()) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 0int
    proof:
        reveal(p_rest_element);
@fn Parser::params -> ret
    ensures kept(*old($0), *final($0))
    ensures [P01] ok_errs(*old($0), *final($0))
    ensures [P01] even(*old($0), *final($0))
    ensures [P03] map_lst(p_params(old($0).s(), old($0).i())) == got(*old($0), *final($0), ret)
    decreases [P01] rem(old($0).s(), old($0).i()), 12int
    proof:
        reveal(p_params);
        reveal(p_params_next);
        reveal(p_params_rest);
    loop 0:
    invariant kept(*old(self), *self)
    invariant [P01] ok_errs(*old(self), *self)
    invariant_except_break [P01] clean(*old(self), *self) && !(old(self).stk() is Bad) ==> self.stk() == push(old(self).stk(), Br::Paren)
    invariant_except_break [P03] p_params(old(self).s(), old(self).i()) == then(*old(self), *self, p_params_rest(self.s(), self.i(), builder.q@))
    ensures [P01] even(*old(self), *self)
    ensures [P03] p_params(old(self).s(), old(self).i()) == got(*old(self), *self, builder.q@)
    decreases [P01] rem(self.s(), self.i())
@opt trait BindingPower spec fn thr ( ) -> int ;
@opt impl BindingPower@ANY open spec fn thr ( ) -> int { -1 }
@fn BindingPower@ANY::vx_LUT -> ret
    ensures [O01,P03] ret is Some <==> level($0) > -1
    ensures [O01,P03] ret is Some ==> vx_pre_NestedHandler(ret->0, $0)
@opt impl BindingPower@B0 open spec fn thr ( ) -> int { 0 }
@fn BindingPower@B0::vx_LUT -> ret
    ensures [O01,P03] ret is Some <==> level($0) > 0
    ensures [O01,P03] ret is Some ==> vx_pre_NestedHandler(ret->0, $0)
@opt impl BindingPower@B1 open spec fn thr ( ) -> int { 0 }
@fn BindingPower@B1::vx_LUT -> ret
    ensures [O01,P03] ret is Some <==> level($0) > 0
    ensures [O01,P03] ret is Some ==> vx_pre_NestedHandler(ret->0, $0)
@opt impl BindingPower@B5 open spec fn thr ( ) -> int { 50 }
@fn BindingPower@B5::vx_LUT -> ret
    ensures [O01,P03] ret is Some <==> level($0) > 50
    ensures [O01,P03] ret is Some ==> vx_pre_NestedHandler(ret->0, $0)
@opt impl BindingPower@B6 open spec fn thr ( ) -> int { 60 }
@fn BindingPower@B6::vx_LUT -> ret
    ensures [O01,P03] ret is Some <==> level($0) > 60
    ensures [O01,P03] ret is Some ==> vx_pre_NestedHandler(ret->0, $0)
@opt impl BindingPower@B7 open spec fn thr ( ) -> int { 70 }
@fn BindingPower@B7::vx_LUT -> ret
    ensures [O01,P03] ret is Some <==> level($0) > 70
    ensures [O01,P03] ret is Some ==> vx_pre_NestedHandler(ret->0, $0)
@opt impl BindingPower@B8 open spec fn thr ( ) -> int { 80 }
@fn BindingPower@B8::vx_LUT -> ret
    ensures [O01,P03] ret is Some <==> level($0) > 80
    ensures [O01,P03] ret is Some ==> vx_pre_NestedHandler(ret->0, $0)
@opt impl BindingPower@B9 open spec fn thr ( ) -> int { 90 }
@fn BindingPower@B9::vx_LUT -> ret
    ensures [O01,P03] ret is Some <==> level($0) > 90
    ensures [O01,P03] ret is Some ==> vx_pre_NestedHandler(ret->0, $0)
@opt impl BindingPower@B10 open spec fn thr ( ) -> int { 100 }
@fn BindingPower@B10::vx_LUT -> ret
    ensures [O01,P03] ret is Some <==> level($0) > 100
    ensures [O01,P03] ret is Some ==> vx_pre_NestedHandler(ret->0, $0)
@opt impl BindingPower@B11 open spec fn thr ( ) -> int { 110 }
@fn BindingPower@B11::vx_LUT -> ret
    ensures [O01,P03] ret is Some <==> level($0) > 110
    ensures [O01,P03] ret is Some ==> vx_pre_NestedHandler(ret->0, $0)
@opt impl BindingPower@B12 open spec fn thr ( ) -> int { 120 }
@fn BindingPower@B12::vx_LUT -> ret
    ensures [O01,P03] ret is Some <==> level($0) > 120
    ensures [O01,P03] ret is Some ==> vx_pre_NestedHandler(ret->0, $0)
@opt impl BindingPower@B13 open spec fn thr ( ) -> int { 130 }
@fn BindingPower@B13::vx_LUT -> ret
    ensures [O01,P03] ret is Some <==> level($0) > 130
    ensures [O01,P03] ret is Some ==> vx_pre_NestedHandler(ret->0, $0)
@opt impl BindingPower@B14 open spec fn thr ( ) -> int { 140 }
@fn BindingPower@B14::vx_LUT -> ret
    ensures [O01,P03] ret is Some <==> level($0) > 140
    ensures [O01,P03] ret is Some ==> vx_pre_NestedHandler(ret->0, $0)
@opt impl BindingPower@B15 open spec fn thr ( ) -> int { 150 }
@fn BindingPower@B15::vx_LUT -> ret
    ensures [O01,P03] ret is Some <==> level($0) > 150
    ensures [O01,P03] ret is Some ==> vx_pre_NestedHandler(ret->0, $0)
@opt impl BindingPower@B18 open spec fn thr ( ) -> int { 175 }
@fn BindingPower@B18::vx_LUT -> ret
    ensures [O01,P03] ret is Some <==> level($0) > 175
    ensures [O01,P03] ret is Some ==> vx_pre_NestedHandler(ret->0, $0)
@fn BindingPower::vx_LUT -> ret
    ensures ret is Some <==> level($0) > Self::thr()
    ensures ret is Some ==> vx_pre_NestedHandler(ret->0, $0)
@fn BindingPower::handler -> ret
    ensures [O01,P02,P03] ret is Some <==> level($1) > Self::thr() && !(($1 is OperatorIncrement || $1 is OperatorDecrement) && $0 is ImplicitSemicolon)
    ensures ret is Some ==> vx_pre_NestedHandler(ret->0, $1)
@fn Parser::parse -> ret
    requires old($0).i() == 0 && old($0).errors@.len() == 0 && old($0).body == lst::<StatementNode<'ast>>(Seq::empty())
    ensures [P01] errs_ok(final($0).errors@)
    ensures [P03] match p_program(old($0).s(), 0) { Some((q, j)) => final($0).errors@.len() == 0 && final($0).body == lst(q), None => final($0).errors@.len() > 0 }
    ensures [P01] final($0).errors@.len() == 0 ==> final($0).s() == old($0).s() && final($0).k() is EndOfProgram && final($0).stk() is Nil
    proof:
        reveal(p_program);
        reveal(p_program_rest);
        reveal(stk);
    loop 0:
    invariant kept(*old(self), *self)
    invariant [P01] ok_errs(*old(self), *self)
    invariant [P01] even(*old(self), *self)
    invariant [P03] p_program_rest(old(self).s(), 0, Seq::empty()) == then(*old(self), *self, p_program_rest(self.s(), self.i(), builder.q@))
    decreases [P01] rem(self.s(), self.i())
@fn parse -> ret
    ensures [P03] match p_program(toks_of($0), 0) { Some((q, j)) => ret is Ok && unsafe_of::<StatementList<'ast>>(ret->Ok_0.body) == lst(q), None => ret is Err }
    ensures [P01] ret is Err ==> ret->Err_0@.len() > 0 && errs_ok(ret->Err_0@)
    ensures [P03] ret is Ok ==> forall|k: int| 0 <= k < unsafe_of::<StatementList<'ast>>(ret->Ok_0.body).q@.len() ==> wf_stmt(*(#[trigger] unsafe_of::<StatementList<'ast>>(ret->Ok_0.body).q@[k]).item)
    proof:
        toks_lexed($0);
        if p_program(toks_of($0), 0) is Some { w_program(toks_of($0), 0); }
