// written by gen_parser.py
pub open spec fn is_word(k: Token) -> bool { k is Identifier || k is Break || k is Do || k is Case || k is Else || k is Catch || k is Export || k is Class || k is Extends || k is Return || k is While || k is Finally || k is Super || k is With || k is Continue || k is For || k is Switch || k is Yield || k is Debugger || k is Function || k is This || k is Default || k is If || k is Throw || k is Import || k is Try || k is Static || k is OperatorNew || k is OperatorTypeof || k is OperatorVoid || k is OperatorDelete || k is OperatorInstanceof || k is OperatorIn || k is DeclarationVar || k is DeclarationLet || k is DeclarationConst || k is ReservedEnum || k is ReservedImplements || k is ReservedPackage || k is ReservedProtected || k is ReservedInterface || k is ReservedPrivate || k is ReservedPublic || k is LiteralTrue || k is LiteralFalse || k is LiteralNull || k is LiteralUndefined }
/// How tightly what starts with this token binds to what stands to its left
pub open spec fn level(k: Token) -> int { match k { Token::Comma => 0int, Token::OperatorConditional => 40int, Token::OperatorFatArrow => 165int, Token::OperatorIncrement => 160int, Token::OperatorDecrement => 160int, Token::ParenOpen => 170int, Token::BracketOpen => 180int, Token::Accessor => 180int, Token::TemplateOpen => 180int, Token::TemplateClosed => 180int, Token::OperatorMultiplication => 140int, Token::OperatorDivision => 140int, Token::OperatorRemainder => 140int, Token::OperatorExponent => 145int, Token::OperatorAddition => 130int, Token::OperatorSubtraction => 130int, Token::OperatorBitShiftLeft => 120int, Token::OperatorBitShiftRight => 120int, Token::OperatorUBitShiftRight => 120int, Token::OperatorLesser => 110int, Token::OperatorLesserEquals => 110int, Token::OperatorGreater => 110int, Token::OperatorGreaterEquals => 110int, Token::OperatorInstanceof => 110int, Token::OperatorIn => 110int, Token::OperatorStrictEquality => 100int, Token::OperatorStrictInequality => 100int, Token::OperatorEquality => 100int, Token::OperatorInequality => 100int, Token::OperatorBitwiseAnd => 90int, Token::OperatorBitwiseXor => 80int, Token::OperatorBitwiseOr => 70int, Token::OperatorLogicalAnd => 60int, Token::OperatorLogicalOr => 50int, Token::OperatorAssign => 20int, Token::OperatorAddAssign => 20int, Token::OperatorSubtractAssign => 20int, Token::OperatorExponentAssign => 20int, Token::OperatorMultiplyAssign => 20int, Token::OperatorDivideAssign => 20int, Token::OperatorRemainderAssign => 20int, Token::OperatorBSLAssign => 20int, Token::OperatorBSRAssign => 20int, Token::OperatorUBSRAssign => 20int, Token::OperatorBitAndAssign => 20int, Token::OperatorBitXorAssign => 20int, Token::OperatorBitOrAssign => 20int, _ => -10int } }
pub open spec fn is_assign(k: Token) -> bool { k is OperatorAssign || k is OperatorAddAssign || k is OperatorSubtractAssign || k is OperatorExponentAssign || k is OperatorMultiplyAssign || k is OperatorDivideAssign || k is OperatorRemainderAssign || k is OperatorBSLAssign || k is OperatorBSRAssign || k is OperatorUBSRAssign || k is OperatorBitAndAssign || k is OperatorBitXorAssign || k is OperatorBitOrAssign }
pub open spec fn is_binary(k: Token) -> bool { k is OperatorMultiplication || k is OperatorDivision || k is OperatorRemainder || k is OperatorExponent || k is OperatorAddition || k is OperatorSubtraction || k is OperatorBitShiftLeft || k is OperatorBitShiftRight || k is OperatorUBitShiftRight || k is OperatorLesser || k is OperatorLesserEquals || k is OperatorGreater || k is OperatorGreaterEquals || k is OperatorInstanceof || k is OperatorIn || k is OperatorStrictEquality || k is OperatorStrictInequality || k is OperatorEquality || k is OperatorInequality || k is OperatorBitwiseAnd || k is OperatorBitwiseXor || k is OperatorBitwiseOr || k is OperatorLogicalAnd || k is OperatorLogicalOr }
pub open spec fn is_unary(k: Token) -> bool { k is OperatorIncrement || k is OperatorDecrement || k is OperatorLogicalNot || k is OperatorBitwiseNot || k is OperatorTypeof || k is OperatorVoid || k is OperatorDelete || k is OperatorAddition || k is OperatorSubtraction }
pub open spec fn operator(k: Token) -> OperatorKind { match k { Token::OperatorMultiplication => OperatorKind::Multiplication, Token::OperatorDivision => OperatorKind::Division, Token::OperatorRemainder => OperatorKind::Remainder, Token::OperatorExponent => OperatorKind::Exponent, Token::OperatorAddition => OperatorKind::Addition, Token::OperatorSubtraction => OperatorKind::Subtraction, Token::OperatorBitShiftLeft => OperatorKind::BitShiftLeft, Token::OperatorBitShiftRight => OperatorKind::BitShiftRight, Token::OperatorUBitShiftRight => OperatorKind::UBitShiftRight, Token::OperatorLesser => OperatorKind::Lesser, Token::OperatorLesserEquals => OperatorKind::LesserEquals, Token::OperatorGreater => OperatorKind::Greater, Token::OperatorGreaterEquals => OperatorKind::GreaterEquals, Token::OperatorInstanceof => OperatorKind::Instanceof, Token::OperatorIn => OperatorKind::In, Token::OperatorStrictEquality => OperatorKind::StrictEquality, Token::OperatorStrictInequality => OperatorKind::StrictInequality, Token::OperatorEquality => OperatorKind::Equality, Token::OperatorInequality => OperatorKind::Inequality, Token::OperatorBitwiseAnd => OperatorKind::BitwiseAnd, Token::OperatorBitwiseXor => OperatorKind::BitwiseXor, Token::OperatorBitwiseOr => OperatorKind::BitwiseOr, Token::OperatorLogicalAnd => OperatorKind::LogicalAnd, Token::OperatorLogicalOr => OperatorKind::LogicalOr, Token::OperatorAssign => OperatorKind::Assign, Token::OperatorAddAssign => OperatorKind::AddAssign, Token::OperatorSubtractAssign => OperatorKind::SubtractAssign, Token::OperatorExponentAssign => OperatorKind::ExponentAssign, Token::OperatorMultiplyAssign => OperatorKind::MultiplyAssign, Token::OperatorDivideAssign => OperatorKind::DivideAssign, Token::OperatorRemainderAssign => OperatorKind::RemainderAssign, Token::OperatorBSLAssign => OperatorKind::BSLAssign, Token::OperatorBSRAssign => OperatorKind::BSRAssign, Token::OperatorUBSRAssign => OperatorKind::UBSRAssign, Token::OperatorBitAndAssign => OperatorKind::BitAndAssign, Token::OperatorBitXorAssign => OperatorKind::BitXorAssign, Token::OperatorBitOrAssign => OperatorKind::BitOrAssign, Token::OperatorIncrement => OperatorKind::Increment, Token::OperatorDecrement => OperatorKind::Decrement, Token::OperatorLogicalNot => OperatorKind::LogicalNot, Token::OperatorBitwiseNot => OperatorKind::BitwiseNot, Token::OperatorTypeof => OperatorKind::Typeof, Token::OperatorVoid => OperatorKind::Void, Token::OperatorDelete => OperatorKind::Delete, _ => OperatorKind::New } }
pub open spec fn starts_statement(k: Token) -> bool { k is Semicolon || k is BraceOpen || k is ParenOpen || k is BracketOpen || k is OperatorNew || k is OperatorDivision || k is This || k is LiteralTrue || k is LiteralFalse || k is LiteralNull || k is LiteralUndefined || k is LiteralString || k is LiteralNumber || k is LiteralBinary || k is TemplateOpen || k is TemplateClosed || k is OperatorIncrement || k is OperatorDecrement || k is OperatorLogicalNot || k is OperatorBitwiseNot || k is OperatorTypeof || k is OperatorVoid || k is OperatorDelete || k is OperatorAddition || k is OperatorSubtraction || k is DeclarationVar || k is DeclarationLet || k is DeclarationConst || k is Break || k is Continue || k is Return || k is Throw || k is Function || k is Class || k is If || k is While || k is Do || k is For || k is Switch || k is Try || k is Identifier || k is Import || k is Debugger }
pub open spec fn starts_expression(k: Token, ctx: int) -> bool { k is Identifier || k is ParenOpen || k is BracketOpen || k is BraceOpen || k is OperatorNew || k is OperatorIncrement || k is OperatorDecrement || k is OperatorLogicalNot || k is OperatorBitwiseNot || k is OperatorTypeof || k is OperatorVoid || k is OperatorDelete || k is OperatorAddition || k is OperatorSubtraction || k is OperatorDivision || k is Function || k is Class || k is This || k is LiteralTrue || k is LiteralFalse || k is LiteralNull || k is LiteralUndefined || k is LiteralString || k is LiteralNumber || k is LiteralBinary || k is TemplateOpen || k is TemplateClosed || (k is OperatorSpread && ctx != 0) || ((k is Comma || k is BracketClose) && ctx == 1) }
#[verifier::opaque]
pub open spec fn p_program<'a>(s: Seq<Tok<'a>>, i: int) -> Option<(Seq<StatementNode<'a>>, int)>
    decreases rem(s, i), 40int
{
    p_program_rest(s, i, Seq::empty())
}
#[verifier::opaque]
pub open spec fn p_program_rest<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<StatementNode<'a>>) -> Option<(Seq<StatementNode<'a>>, int)>
    decreases rem(s, i), 30int
{
    if (at(s, i).kind is EndOfProgram) {
        Some((acc, i))
    }
    else {
        match p_statement(s, i) {
            Some((x, j2)) => if j2 > i {
                p_program_rest(s, j2, acc.push(x))
            } else { None },
            None => None,
        }
    }
}
#[verifier::opaque]
pub open spec fn p_statements<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<StatementNode<'a>>) -> Option<(Seq<StatementNode<'a>>, int)>
    decreases rem(s, i), 30int
{
    if (at(s, i).kind is BraceClose || at(s, i).kind is EndOfProgram) {
        Some((acc, i))
    }
    else {
        match p_statement(s, i) {
            Some((x, j4)) => if j4 > i {
                p_statements(s, j4, acc.push(x))
            } else { None },
            None => None,
        }
    }
}
pub open spec fn p_semi<'a>(s: Seq<Tok<'a>>, i: int) -> Option<((), int)>
{
    if asi(at(s, (i))) is ExplicitSemicolon {
        if plain(s, i + 1) {
            Some(((), i + 1))
        } else { None }
    }
    else if asi(at(s, (i))) is ImplicitSemicolon {
        Some(((), i))
    }
    else {
        None
    }
}
#[verifier::opaque]
pub open spec fn p_expression_end<'a>(s: Seq<Tok<'a>>, i: int, left: ExpressionNode<'a>) -> Option<(StatementNode<'a>, int)>
    decreases rem(s, i), 22int
{
    match p_tail(s, i, left, -1) {
        Some((r, j6)) => {
            match p_semi(s, j6) {
                Some((u, j7)) => {
                    Some((nd(Statement::Expression(r)), j7))
                },
                None => None,
            }
        },
        None => None,
    }
}
pub open spec fn p_ident<'a>(s: Seq<Tok<'a>>, i: int) -> Option<(IdentifierNode<'a>, int)>
{
    let n = at(s, i).text;
    if at(s, i).kind is Identifier && plain(s, i + 1) {
        Some((nd(n), i + 1))
    } else { None }
}
pub open spec fn p_block_end<'a>(s: Seq<Tok<'a>>, i: int) -> Option<((), int)>
{
    if at(s, i).kind is BraceClose && plain(s, i + 1) {
        Some(((), i + 1))
    } else { None }
}
#[verifier::opaque]
pub open spec fn p_statement<'a>(s: Seq<Tok<'a>>, i: int) -> Option<(StatementNode<'a>, int)>
    decreases rem(s, i), 28int
{
    if (at(s, i).kind is Semicolon) {
        if plain(s, i + 1) {
            Some((nd(Statement::Empty), i + 1))
        } else { None }
    }
    else if (at(s, i).kind is BraceOpen) {
        if plain(s, i + 1) {
            match p_statements(s, i + 1, Seq::empty()) {
                Some((b, j8)) => {
                    if at(s, j8).kind is BraceClose && plain(s, j8 + 1) {
                        Some((nd(Statement::Block(Block { body: lst(b) })), j8 + 1))
                    } else { None }
                },
                None => None,
            }
        } else { None }
    }
    else if (at(s, i).kind is ParenOpen || at(s, i).kind is BracketOpen || at(s, i).kind is OperatorNew || at(s, i).kind is OperatorDivision || at(s, i).kind is This || at(s, i).kind is LiteralTrue || at(s, i).kind is LiteralFalse || at(s, i).kind is LiteralNull || at(s, i).kind is LiteralUndefined || at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber || at(s, i).kind is LiteralBinary || at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) || is_unary(at(s, i).kind) {
        {
            match p_head(s, i, 0) {
                Some((x, j10)) => if j10 >= i {
                    p_expression_end(s, j10, x)
                } else { None },
                None => None,
            }
        }
    }
    else if (at(s, i).kind is DeclarationVar) {
        p_variable(s, i, DeclarationKind::Var)
    }
    else if (at(s, i).kind is DeclarationLet) {
        p_variable(s, i, DeclarationKind::Let)
    }
    else if (at(s, i).kind is DeclarationConst) {
        p_variable(s, i, DeclarationKind::Const)
    }
    else if (at(s, i).kind is Break) {
        if plain(s, i + 1) {
            match ({
                if asi(at(s, (i + 1))) is NoSemicolon {
                    match p_ident(s, i + 1) {
                        Some((l, j16)) => {
                            match p_semi(s, j16) {
                                Some((u, j17)) => {
                                    Some((Some(l), j17))
                                },
                                None => None,
                            }
                        },
                        None => None,
                    }
                }
                else {
                    match p_semi(s, i + 1) {
                        Some((u, j18)) => {
                            Some((None, j18))
                        },
                        None => None,
                    }
                }
            }) {
                Some((l, j15)) => {
                    Some((nd(Statement::Break(BreakStatement { label: l })), j15))
                },
                None => None,
            }
        } else { None }
    }
    else if (at(s, i).kind is Continue) {
        if plain(s, i + 1) {
            match ({
                if asi(at(s, (i + 1))) is NoSemicolon {
                    match p_ident(s, i + 1) {
                        Some((l, j20)) => {
                            match p_semi(s, j20) {
                                Some((u, j21)) => {
                                    Some((Some(l), j21))
                                },
                                None => None,
                            }
                        },
                        None => None,
                    }
                }
                else {
                    match p_semi(s, i + 1) {
                        Some((u, j22)) => {
                            Some((None, j22))
                        },
                        None => None,
                    }
                }
            }) {
                Some((l, j19)) => {
                    Some((nd(Statement::Continue(ContinueStatement { label: l })), j19))
                },
                None => None,
            }
        } else { None }
    }
    else if (at(s, i).kind is Return) {
        if plain(s, i + 1) {
            match ({
                if asi(at(s, (i + 1))) is NoSemicolon {
                    match p_expr(s, i + 1, -1, 0) {
                        Some((e, j24)) => {
                            match p_semi(s, j24) {
                                Some((u, j25)) => {
                                    Some((Some(e), j25))
                                },
                                None => None,
                            }
                        },
                        None => None,
                    }
                }
                else {
                    match p_semi(s, i + 1) {
                        Some((u, j26)) => {
                            Some((None, j26))
                        },
                        None => None,
                    }
                }
            }) {
                Some((r, j23)) => {
                    Some((nd(Statement::Return(ReturnStatement { value: r })), j23))
                },
                None => None,
            }
        } else { None }
    }
    else if (at(s, i).kind is Throw) {
        if plain(s, i + 1) {
            match p_expr(s, i + 1, -1, 0) {
                Some((e, j27)) => {
                    match p_semi(s, j27) {
                        Some((u, j28)) => {
                            Some((nd(Statement::Throw(ThrowStatement { value: e })), j28))
                        },
                        None => None,
                    }
                },
                None => None,
            }
        } else { None }
    }
    else if (at(s, i).kind is Function) {
        if plain(s, i + 1) {
            match p_function_mandatory(s, i + 1) {
                Some((f, j29)) => {
                    Some((nd(Statement::Function(f)), j29))
                },
                None => None,
            }
        } else { None }
    }
    else if (at(s, i).kind is Class) {
        if plain(s, i + 1) {
            match p_class_mandatory(s, i + 1) {
                Some((f, j30)) => {
                    Some((nd(Statement::Class(f)), j30))
                },
                None => None,
            }
        } else { None }
    }
    else if (at(s, i).kind is If) {
        {
            if !(at(s, i).kind is EndOfProgram) && plain(s, i + 1) {
                if at(s, i + 1).kind is ParenOpen && plain(s, i + 2) {
                    match p_expr(s, i + 2, -1, 0) {
                        Some((e, j32)) => if j32 >= i + 2 {
                            if at(s, j32).kind is ParenClose && plain(s, j32 + 1) {
                                match p_statement(s, j32 + 1) {
                                    Some((a, j33)) => if j33 >= j32 + 1 {
                                        if (at(s, j33).kind is Else) {
                                            if plain(s, j33 + 1) {
                                                match p_statement(s, j33 + 1) {
                                                    Some((b, j34)) => {
                                                        Some((nd(Statement::If(IfStatement { test: e, consequent: a, alternate: Some(b) })), j34))
                                                    },
                                                    None => None,
                                                }
                                            } else { None }
                                        }
                                        else {
                                            Some((nd(Statement::If(IfStatement { test: e, consequent: a, alternate: None })), j33))
                                        }
                                    } else { None },
                                    None => None,
                                }
                            } else { None }
                        } else { None },
                        None => None,
                    }
                } else { None }
            } else { None }
        }
    }
    else if (at(s, i).kind is While) {
        if plain(s, i + 1) {
            if at(s, i + 1).kind is ParenOpen && plain(s, i + 2) {
                match p_expr(s, i + 2, -1, 0) {
                    Some((e, j35)) => if j35 >= i + 2 {
                        if at(s, j35).kind is ParenClose && plain(s, j35 + 1) {
                            match p_statement(s, j35 + 1) {
                                Some((b, j36)) => {
                                    Some((nd(Statement::While(WhileStatement { test: e, body: b })), j36))
                                },
                                None => None,
                            }
                        } else { None }
                    } else { None },
                    None => None,
                }
            } else { None }
        } else { None }
    }
    else if (at(s, i).kind is Do) {
        {
            if !(at(s, i).kind is EndOfProgram) && plain(s, i + 1) {
                match p_statement(s, i + 1) {
                    Some((b, j38)) => if j38 >= i + 1 {
                        if at(s, j38).kind is While && plain(s, j38 + 1) {
                            if at(s, j38 + 1).kind is ParenOpen && plain(s, j38 + 2) {
                                match p_expr(s, j38 + 2, -1, 0) {
                                    Some((e, j39)) => {
                                        if at(s, j39).kind is ParenClose && plain(s, j39 + 1) {
                                            if (at(s, j39 + 1).kind is Semicolon) {
                                                if plain(s, j39 + 2) {
                                                    Some((nd(Statement::Do(DoStatement { body: b, test: e })), j39 + 2))
                                                } else { None }
                                            }
                                            else {
                                                Some((nd(Statement::Do(DoStatement { body: b, test: e })), j39 + 1))
                                            }
                                        } else { None }
                                    },
                                    None => None,
                                }
                            } else { None }
                        } else { None }
                    } else { None },
                    None => None,
                }
            } else { None }
        }
    }
    else if (at(s, i).kind is For) {
        {
            if !(at(s, i).kind is EndOfProgram) && plain(s, i + 1) {
                if at(s, i + 1).kind is ParenOpen && plain(s, i + 2) {
                    if (at(s, i + 2).kind is Semicolon) {
                        if plain(s, i + 3) {
                            {
                                let (init) = (None);
                                match ({
                                    if (at(s, i + 3).kind is Semicolon) {
                                        if plain(s, i + 4) {
                                            Some((None, i + 4))
                                        } else { None }
                                    }
                                    else {
                                        match p_expr(s, i + 3, -1, 0) {
                                            Some((e, j43)) => {
                                                if at(s, j43).kind is Semicolon && plain(s, j43 + 1) {
                                                    Some((Some(e), j43 + 1))
                                                } else { None }
                                            },
                                            None => None,
                                        }
                                    }
                                }) {
                                    Some((t, j42)) => if j42 >= i + 3 {
                                        match ({
                                            if (at(s, j42).kind is ParenClose) {
                                                if plain(s, j42 + 1) {
                                                    Some((None, j42 + 1))
                                                } else { None }
                                            }
                                            else {
                                                match p_expr(s, j42, -1, 0) {
                                                    Some((e, j45)) => {
                                                        if at(s, j45).kind is ParenClose && plain(s, j45 + 1) {
                                                            Some((Some(e), j45 + 1))
                                                        } else { None }
                                                    },
                                                    None => None,
                                                }
                                            }
                                        }) {
                                            Some((u, j44)) => if j44 >= j42 {
                                                match p_statement(s, j44) {
                                                    Some((b, j46)) => {
                                                        Some((nd(Statement::For(ForStatement { init, test: t, update: u, body: b })), j46))
                                                    },
                                                    None => None,
                                                }
                                            } else { None },
                                            None => None,
                                        }
                                    } else { None },
                                    None => None,
                                }
                            }
                        } else { None }
                    }
                    else {
                        match ({
                            if (at(s, i + 2).kind is DeclarationVar) {
                                p_for_init(s, i + 2, DeclarationKind::Var)
                            }
                            else if (at(s, i + 2).kind is DeclarationLet) {
                                p_for_init(s, i + 2, DeclarationKind::Let)
                            }
                            else if (at(s, i + 2).kind is DeclarationConst) {
                                p_for_init(s, i + 2, DeclarationKind::Const)
                            }
                            else {
                                match p_expr(s, i + 2, 110, 0) {
                                    Some((x, j51)) => if j51 >= i + 2 {
                                        if (at(s, j51).kind is OperatorIn) {
                                            Some((nd(ForInit::Expression(x)), j51))
                                        }
                                        else {
                                            match p_tail(s, j51, x, -1) {
                                                Some((y, j52)) => {
                                                    Some((nd(ForInit::Expression(y)), j52))
                                                },
                                                None => None,
                                            }
                                        }
                                    } else { None },
                                    None => None,
                                }
                            }
                        }) {
                            Some((x, j47)) => if j47 >= i + 2 {
                                {
                                    let (init) = (x);
                                    if (at(s, j47).kind is OperatorIn) {
                                        if plain(s, j47 + 1) {
                                            p_for_in(s, j47 + 1, init)
                                        } else { None }
                                    }
                                    else if (at(s, j47).kind is Identifier) && at(s, j47).text == lit(26223) {
                                        if plain(s, j47 + 1) {
                                            p_for_of(s, j47 + 1, init)
                                        } else { None }
                                    }
                                    else {
                                        if at(s, j47).kind is Semicolon && plain(s, j47 + 1) {
                                            {
                                                let (init) = (Some(init));
                                                match ({
                                                    if (at(s, j47 + 1).kind is Semicolon) {
                                                        if plain(s, j47 + 2) {
                                                            Some((None, j47 + 2))
                                                        } else { None }
                                                    }
                                                    else {
                                                        match p_expr(s, j47 + 1, -1, 0) {
                                                            Some((e, j58)) => {
                                                                if at(s, j58).kind is Semicolon && plain(s, j58 + 1) {
                                                                    Some((Some(e), j58 + 1))
                                                                } else { None }
                                                            },
                                                            None => None,
                                                        }
                                                    }
                                                }) {
                                                    Some((t, j57)) => if j57 >= j47 + 1 {
                                                        match ({
                                                            if (at(s, j57).kind is ParenClose) {
                                                                if plain(s, j57 + 1) {
                                                                    Some((None, j57 + 1))
                                                                } else { None }
                                                            }
                                                            else {
                                                                match p_expr(s, j57, -1, 0) {
                                                                    Some((e, j60)) => {
                                                                        if at(s, j60).kind is ParenClose && plain(s, j60 + 1) {
                                                                            Some((Some(e), j60 + 1))
                                                                        } else { None }
                                                                    },
                                                                    None => None,
                                                                }
                                                            }
                                                        }) {
                                                            Some((u, j59)) => if j59 >= j57 {
                                                                match p_statement(s, j59) {
                                                                    Some((b, j61)) => {
                                                                        Some((nd(Statement::For(ForStatement { init, test: t, update: u, body: b })), j61))
                                                                    },
                                                                    None => None,
                                                                }
                                                            } else { None },
                                                            None => None,
                                                        }
                                                    } else { None },
                                                    None => None,
                                                }
                                            }
                                        } else { None }
                                    }
                                }
                            } else { None },
                            None => None,
                        }
                    }
                } else { None }
            } else { None }
        }
    }
    else if (at(s, i).kind is Switch) {
        if plain(s, i + 1) {
            if at(s, i + 1).kind is ParenOpen && plain(s, i + 2) {
                match p_expr(s, i + 2, -1, 0) {
                    Some((e, j62)) => if j62 >= i + 2 {
                        if at(s, j62).kind is ParenClose && plain(s, j62 + 1) {
                            match p_block_case(s, j62 + 1) {
                                Some((b, j63)) => {
                                    Some((nd(Statement::Switch(SwitchStatement { discriminant: e, cases: b })), j63))
                                },
                                None => None,
                            }
                        } else { None }
                    } else { None },
                    None => None,
                }
            } else { None }
        } else { None }
    }
    else if (at(s, i).kind is Try) {
        {
            if !(at(s, i).kind is EndOfProgram) && plain(s, i + 1) {
                match p_block(s, i + 1) {
                    Some((b, j65)) => if j65 >= i + 1 {
                        if (at(s, j65).kind is Catch) {
                            if plain(s, j65 + 1) {
                                if at(s, j65 + 1).kind is ParenOpen && plain(s, j65 + 2) {
                                    match p_pattern(s, j65 + 2) {
                                        Some((p, j66)) => if j66 >= j65 + 2 {
                                            if at(s, j66).kind is ParenClose && plain(s, j66 + 1) {
                                                match p_block(s, j66 + 1) {
                                                    Some((c, j67)) => if j67 >= j66 + 1 {
                                                        let h = nd(CatchClause { param: p, body: c });
                                                        if (at(s, j67).kind is Finally) {
                                                            if plain(s, j67 + 1) {
                                                                match p_block(s, j67 + 1) {
                                                                    Some((f, j68)) => {
                                                                        Some((nd(Statement::Try(TryStatement { block: b, handler: Some(h), finalizer: Some(f) })), j68))
                                                                    },
                                                                    None => None,
                                                                }
                                                            } else { None }
                                                        }
                                                        else {
                                                            Some((nd(Statement::Try(TryStatement { block: b, handler: Some(h), finalizer: None })), j67))
                                                        }
                                                    } else { None },
                                                    None => None,
                                                }
                                            } else { None }
                                        } else { None },
                                        None => None,
                                    }
                                } else { None }
                            } else { None }
                        }
                        else if (at(s, j65).kind is Finally) {
                            if plain(s, j65 + 1) {
                                match p_block(s, j65 + 1) {
                                    Some((f, j69)) => {
                                        Some((nd(Statement::Try(TryStatement { block: b, handler: None, finalizer: Some(f) })), j69))
                                    },
                                    None => None,
                                }
                            } else { None }
                        }
                        else {
                            None
                        }
                    } else { None },
                    None => None,
                }
            } else { None }
        }
    }
    else if (at(s, i).kind is Identifier) {
        {
            let label = at(s, i).text;
            if !(at(s, i).kind is EndOfProgram) && plain(s, i + 1) {
                if (at(s, i + 1).kind is Colon) {
                    if plain(s, i + 2) {
                        match p_statement(s, i + 2) {
                            Some((b, j71)) => {
                                Some((nd(Statement::Labeled(LabeledStatement { label, body: b })), j71))
                            },
                            None => None,
                        }
                    } else { None }
                }
                else {
                    match p_tail(s, i + 1, nd(Expression::Identifier(label)), -1) {
                        Some((r, j72)) => {
                            match p_semi(s, j72) {
                                Some((u, j73)) => {
                                    Some((nd(Statement::Expression(r)), j73))
                                },
                                None => None,
                            }
                        },
                        None => None,
                    }
                }
            } else { None }
        }
    }
    else if (at(s, i).kind is Import) {
        {
            let name = at(s, i).text;
            if !(at(s, i).kind is EndOfProgram) && plain(s, i + 1) {
                if (at(s, i + 1).kind is Comma || at(s, i + 1).kind is ParenOpen) {
                    match p_tail(s, i + 1, nd(Expression::Identifier(name)), -1) {
                        Some((r, j75)) => {
                            match p_semi(s, j75) {
                                Some((u, j76)) => {
                                    Some((nd(Statement::Expression(r)), j76))
                                },
                                None => None,
                            }
                        },
                        None => None,
                    }
                }
                else if (at(s, i + 1).kind is LiteralString) {
                    let source = unquote(at(s, i + 1).text);
                    if plain(s, i + 2) {
                        match p_semi(s, i + 2) {
                            Some((u, j77)) => {
                                Some((nd(Statement::Import(ImportDeclaration { specifiers: lst(Seq::empty()), source })), j77))
                            },
                            None => None,
                        }
                    } else { None }
                }
                else if (at(s, i + 1).kind is Identifier) {
                    let d = nd(ForImportSpecifier::ImportDefaultSpecifier(ImportDefaultSpecifier { local: nd(at(s, i + 1).text) }));
                    if plain(s, i + 2) {
                        if (at(s, i + 2).kind is Comma) {
                            if plain(s, i + 3) {
                                {
                                    let (acc) = (Seq::empty().push(d));
                                    if (at(s, i + 3).kind is BraceOpen) {
                                        if plain(s, i + 4) {
                                            p_import_names(s, i + 4, acc)
                                        } else { None }
                                    }
                                    else if (at(s, i + 3).kind is OperatorMultiplication) {
                                        if plain(s, i + 4) {
                                            if (at(s, i + 4).kind is Identifier) && at(s, i + 4).text == lit(29537) {
                                                if plain(s, i + 5) {
                                                    let d = nd(ForImportSpecifier::ImportNamespaceSpecifier(ImportNamespaceSpecifier { local: nd(at(s, i + 5).text) }));
                                                    if at(s, i + 5).kind is Identifier && plain(s, i + 6) {
                                                        p_import_from(s, i + 6, acc.push(d))
                                                    } else { None }
                                                } else { None }
                                            } else { None }
                                        } else { None }
                                    }
                                    else {
                                        None
                                    }
                                }
                            } else { None }
                        }
                        else {
                            p_import_from(s, i + 2, Seq::empty().push(d))
                        }
                    } else { None }
                }
                else {
                    {
                        let (acc) = (Seq::empty());
                        if (at(s, i + 1).kind is BraceOpen) {
                            if plain(s, i + 2) {
                                p_import_names(s, i + 2, acc)
                            } else { None }
                        }
                        else if (at(s, i + 1).kind is OperatorMultiplication) {
                            if plain(s, i + 2) {
                                if (at(s, i + 2).kind is Identifier) && at(s, i + 2).text == lit(29537) {
                                    if plain(s, i + 3) {
                                        let d = nd(ForImportSpecifier::ImportNamespaceSpecifier(ImportNamespaceSpecifier { local: nd(at(s, i + 3).text) }));
                                        if at(s, i + 3).kind is Identifier && plain(s, i + 4) {
                                            p_import_from(s, i + 4, acc.push(d))
                                        } else { None }
                                    } else { None }
                                } else { None }
                            } else { None }
                        }
                        else {
                            None
                        }
                    }
                }
            } else { None }
        }
    }
    else if (at(s, i).kind is Debugger) {
        if plain(s, i + 1) {
            match p_semi(s, i + 1) {
                Some((u, j85)) => {
                    Some((nd(Statement::Debugger), j85))
                },
                None => None,
            }
        } else { None }
    }
    else {
        None
    }
}
#[verifier::opaque]
pub open spec fn p_variable<'a>(s: Seq<Tok<'a>>, i: int, kind: DeclarationKind) -> Option<(StatementNode<'a>, int)>
    decreases rem(s, i), 26int
{
    if !(at(s, i).kind is EndOfProgram) && plain(s, i + 1) {
        match p_declarators(s, i + 1) {
            Some((d, j86)) => {
                match p_semi(s, j86) {
                    Some((u, j87)) => {
                        Some((nd(Statement::Declaration(DeclarationStatement { kind, declarators: d })), j87))
                    },
                    None => None,
                }
            },
            None => None,
        }
    } else { None }
}
#[verifier::opaque]
pub open spec fn p_declarators<'a>(s: Seq<Tok<'a>>, i: int) -> Option<(NodeList<'a, Declarator<'a>>, int)>
    decreases rem(s, i), 25int
{
    p_declarators_more(s, i, Seq::empty())
}
#[verifier::opaque]
pub open spec fn p_declarators_more<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<Node<'a, Declarator<'a>>>) -> Option<(NodeList<'a, Declarator<'a>>, int)>
    decreases rem(s, i), 24int
{
    match p_declarator(s, i) {
        Some((d, j89)) => if j89 >= i {
            if (at(s, j89).kind is Comma) {
                if plain(s, j89 + 1) {
                    p_declarators_more(s, j89 + 1, acc.push(d))
                } else { None }
            }
            else {
                Some((lst(acc.push(d)), j89))
            }
        } else { None },
        None => None,
    }
}
#[verifier::opaque]
pub open spec fn p_declarator<'a>(s: Seq<Tok<'a>>, i: int) -> Option<(Node<'a, Declarator<'a>>, int)>
    decreases rem(s, i), 23int
{
    match p_pattern(s, i) {
        Some((id, j91)) => if j91 >= i {
            if (at(s, j91).kind is OperatorAssign) {
                if plain(s, j91 + 1) {
                    match p_expr(s, j91 + 1, 0, 0) {
                        Some((e, j92)) => {
                            Some((nd(Declarator { id, init: Some(e) }), j92))
                        },
                        None => None,
                    }
                } else { None }
            }
            else {
                Some((nd(Declarator { id, init: None }), j91))
            }
        } else { None },
        None => None,
    }
}
#[verifier::opaque]
pub open spec fn p_for_init<'a>(s: Seq<Tok<'a>>, i: int, kind: DeclarationKind) -> Option<(Node<'a, ForInit<'a>>, int)>
    decreases rem(s, i), 26int
{
    if !(at(s, i).kind is EndOfProgram) && plain(s, i + 1) {
        match p_declarators(s, i + 1) {
            Some((d, j93)) => {
                Some((nd(ForInit::Declaration(DeclarationStatement { kind, declarators: d })), j93))
            },
            None => None,
        }
    } else { None }
}
#[verifier::opaque]
pub open spec fn p_for_in<'a>(s: Seq<Tok<'a>>, i: int, left: Node<'a, ForInit<'a>>) -> Option<(StatementNode<'a>, int)>
    decreases rem(s, i), 29int
{
    match p_expr(s, i, -1, 0) {
        Some((e, j94)) => if j94 >= i {
            if at(s, j94).kind is ParenClose && plain(s, j94 + 1) {
                match p_statement(s, j94 + 1) {
                    Some((b, j95)) => {
                        Some((nd(Statement::ForIn(ForInStatement { left, right: e, body: b })), j95))
                    },
                    None => None,
                }
            } else { None }
        } else { None },
        None => None,
    }
}
#[verifier::opaque]
pub open spec fn p_for_of<'a>(s: Seq<Tok<'a>>, i: int, left: Node<'a, ForInit<'a>>) -> Option<(StatementNode<'a>, int)>
    decreases rem(s, i), 29int
{
    match p_expr(s, i, -1, 0) {
        Some((e, j96)) => if j96 >= i {
            if at(s, j96).kind is ParenClose && plain(s, j96 + 1) {
                match p_statement(s, j96 + 1) {
                    Some((b, j97)) => {
                        Some((nd(Statement::ForOf(ForOfStatement { left, right: e, body: b })), j97))
                    },
                    None => None,
                }
            } else { None }
        } else { None },
        None => None,
    }
}
#[verifier::opaque]
pub open spec fn p_block<'a>(s: Seq<Tok<'a>>, i: int) -> Option<(BlockNode<'a, Statement<'a>>, int)>
    decreases rem(s, i), 8int
{
    if at(s, i).kind is BraceOpen && plain(s, i + 1) {
        match p_statements(s, i + 1, Seq::empty()) {
            Some((b, j98)) => {
                if at(s, j98).kind is BraceClose && plain(s, j98 + 1) {
                    Some((nd(Block { body: lst(b) }), j98 + 1))
                } else { None }
            },
            None => None,
        }
    } else { None }
}
#[verifier::opaque]
pub open spec fn p_block_case<'a>(s: Seq<Tok<'a>>, i: int) -> Option<(BlockNode<'a, SwitchCase<'a>>, int)>
    decreases rem(s, i), 8int
{
    if at(s, i).kind is BraceOpen && plain(s, i + 1) {
        match p_cases(s, i + 1, Seq::empty()) {
            Some((b, j99)) => {
                if at(s, j99).kind is BraceClose && plain(s, j99 + 1) {
                    Some((nd(Block { body: lst(b) }), j99 + 1))
                } else { None }
            },
            None => None,
        }
    } else { None }
}
#[verifier::opaque]
pub open spec fn p_cases<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<Node<'a, SwitchCase<'a>>>) -> Option<(Seq<Node<'a, SwitchCase<'a>>>, int)>
    decreases rem(s, i), 30int
{
    if (at(s, i).kind is BraceClose || at(s, i).kind is EndOfProgram) {
        Some((acc, i))
    }
    else {
        match p_case(s, i) {
            Some((x, j100)) => if j100 > i {
                p_cases(s, j100, acc.push(x))
            } else { None },
            None => None,
        }
    }
}
#[verifier::opaque]
pub open spec fn p_case<'a>(s: Seq<Tok<'a>>, i: int) -> Option<(Node<'a, SwitchCase<'a>>, int)>
    decreases rem(s, i), 29int
{
    if (at(s, i).kind is Case) {
        if plain(s, i + 1) {
            match p_expr(s, i + 1, -1, 0) {
                Some((e, j102)) => if j102 >= i + 1 {
                    if at(s, j102).kind is Colon && plain(s, j102 + 1) {
                        match p_case_body(s, j102 + 1, Seq::empty()) {
                            Some((l, j103)) => {
                                Some((nd(SwitchCase { test: Some(e), consequent: lst(l) }), j103))
                            },
                            None => None,
                        }
                    } else { None }
                } else { None },
                None => None,
            }
        } else { None }
    }
    else {
        if at(s, i).kind is Default && plain(s, i + 1) {
            if at(s, i + 1).kind is Colon && plain(s, i + 2) {
                match p_case_body(s, i + 2, Seq::empty()) {
                    Some((l, j104)) => {
                        Some((nd(SwitchCase { test: None, consequent: lst(l) }), j104))
                    },
                    None => None,
                }
            } else { None }
        } else { None }
    }
}
#[verifier::opaque]
pub open spec fn p_case_body<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<StatementNode<'a>>) -> Option<(Seq<StatementNode<'a>>, int)>
    decreases rem(s, i), 30int
{
    if (at(s, i).kind is Case || at(s, i).kind is Default || at(s, i).kind is BraceClose || at(s, i).kind is EndOfProgram) {
        Some((acc, i))
    }
    else {
        match p_statement(s, i) {
            Some((x, j105)) => if j105 > i {
                p_case_body(s, j105, acc.push(x))
            } else { None },
            None => None,
        }
    }
}
#[verifier::opaque]
pub open spec fn p_import_names<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<Node<'a, ForImportSpecifier<'a>>>) -> Option<(StatementNode<'a>, int)>
    decreases rem(s, i), 5int
{
    let imported = nd(at(s, i).text);
    if at(s, i).kind is Identifier && plain(s, i + 1) {
        if (at(s, i + 1).kind is Identifier) && at(s, i + 1).text == lit(29537) {
            if plain(s, i + 2) {
                let d = nd(ForImportSpecifier::ImportSpecifier(ImportSpecifier { imported, local: nd(at(s, i + 2).text) }));
                if at(s, i + 2).kind is Identifier && plain(s, i + 3) {
                    p_import_next(s, i + 3, acc.push(d))
                } else { None }
            } else { None }
        }
        else {
            let d = nd(ForImportSpecifier::ImportSpecifier(ImportSpecifier { imported, local: imported }));
            p_import_next(s, i + 1, acc.push(d))
        }
    } else { None }
}
#[verifier::opaque]
pub open spec fn p_import_next<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<Node<'a, ForImportSpecifier<'a>>>) -> Option<(StatementNode<'a>, int)>
    decreases rem(s, i), 5int
{
    if (at(s, i).kind is Comma) {
        if plain(s, i + 1) {
            p_import_names(s, i + 1, acc)
        } else { None }
    }
    else {
        if at(s, i).kind is BraceClose && plain(s, i + 1) {
            p_import_from(s, i + 1, acc)
        } else { None }
    }
}
#[verifier::opaque]
pub open spec fn p_import_from<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<Node<'a, ForImportSpecifier<'a>>>) -> Option<(StatementNode<'a>, int)>
    decreases rem(s, i), 3int
{
    if (at(s, i).kind is Identifier) && at(s, i).text == lit(1836020326) {
        if plain(s, i + 1) {
            let source = unquote(at(s, i + 1).text);
            if at(s, i + 1).kind is LiteralString && plain(s, i + 2) {
                match p_semi(s, i + 2) {
                    Some((u, j111)) => {
                        Some((nd(Statement::Import(ImportDeclaration { specifiers: lst(acc), source })), j111))
                    },
                    None => None,
                }
            } else { None }
        } else { None }
    } else { None }
}
#[verifier::opaque]
pub open spec fn p_function_empty<'a>(s: Seq<Tok<'a>>, i: int) -> Option<(Function<'a, EmptyName>, int)>
    decreases rem(s, i), 12int
{
    if (at(s, i).kind is OperatorMultiplication) {
        if plain(s, i + 1) {
            let generator = true;
            let name = EmptyName;
            match p_params(s, i + 1) {
                Some((ps, j112)) => if j112 >= i + 1 {
                    match p_block(s, j112) {
                        Some((b, j113)) => {
                            Some((Function { name, generator, params: lst(ps), body: b }, j113))
                        },
                        None => None,
                    }
                } else { None },
                None => None,
            }
        } else { None }
    }
    else {
        let generator = false;
        let name = EmptyName;
        match p_params(s, i) {
            Some((ps, j114)) => if j114 >= i {
                match p_block(s, j114) {
                    Some((b, j115)) => {
                        Some((Function { name, generator, params: lst(ps), body: b }, j115))
                    },
                    None => None,
                }
            } else { None },
            None => None,
        }
    }
}
#[verifier::opaque]
pub open spec fn p_function_optional<'a>(s: Seq<Tok<'a>>, i: int) -> Option<(Function<'a, OptionalName<'a>>, int)>
    decreases rem(s, i), 12int
{
    if (at(s, i).kind is OperatorMultiplication) {
        if plain(s, i + 1) {
            let generator = true;
            match p_optional_name(s, i + 1) {
                Some((name, j116)) => if j116 >= i + 1 {
                    match p_params(s, j116) {
                        Some((ps, j117)) => if j117 >= j116 {
                            match p_block(s, j117) {
                                Some((b, j118)) => {
                                    Some((Function { name, generator, params: lst(ps), body: b }, j118))
                                },
                                None => None,
                            }
                        } else { None },
                        None => None,
                    }
                } else { None },
                None => None,
            }
        } else { None }
    }
    else {
        let generator = false;
        match p_optional_name(s, i) {
            Some((name, j119)) => if j119 >= i {
                match p_params(s, j119) {
                    Some((ps, j120)) => if j120 >= j119 {
                        match p_block(s, j120) {
                            Some((b, j121)) => {
                                Some((Function { name, generator, params: lst(ps), body: b }, j121))
                            },
                            None => None,
                        }
                    } else { None },
                    None => None,
                }
            } else { None },
            None => None,
        }
    }
}
#[verifier::opaque]
pub open spec fn p_class_optional<'a>(s: Seq<Tok<'a>>, i: int) -> Option<(Class<'a, OptionalName<'a>>, int)>
    decreases rem(s, i), 12int
{
    match p_optional_name(s, i) {
        Some((name, j122)) => if j122 >= i {
            if (at(s, j122).kind is Extends) {
                if plain(s, j122 + 1) {
                    match p_expr(s, j122 + 1, 0, 0) {
                        Some((e, j123)) => if j123 >= j122 + 1 {
                            let extends = Some(e);
                            match p_block_member(s, j123) {
                                Some((b, j124)) => {
                                    Some((Class { name, extends, body: b }, j124))
                                },
                                None => None,
                            }
                        } else { None },
                        None => None,
                    }
                } else { None }
            }
            else {
                let extends = None;
                match p_block_member(s, j122) {
                    Some((b, j125)) => {
                        Some((Class { name, extends, body: b }, j125))
                    },
                    None => None,
                }
            }
        } else { None },
        None => None,
    }
}
#[verifier::opaque]
pub open spec fn p_function_mandatory<'a>(s: Seq<Tok<'a>>, i: int) -> Option<(Function<'a, MandatoryName<'a>>, int)>
    decreases rem(s, i), 12int
{
    if (at(s, i).kind is OperatorMultiplication) {
        if plain(s, i + 1) {
            let generator = true;
            match p_mandatory_name(s, i + 1) {
                Some((name, j126)) => if j126 >= i + 1 {
                    match p_params(s, j126) {
                        Some((ps, j127)) => if j127 >= j126 {
                            match p_block(s, j127) {
                                Some((b, j128)) => {
                                    Some((Function { name, generator, params: lst(ps), body: b }, j128))
                                },
                                None => None,
                            }
                        } else { None },
                        None => None,
                    }
                } else { None },
                None => None,
            }
        } else { None }
    }
    else {
        let generator = false;
        match p_mandatory_name(s, i) {
            Some((name, j129)) => if j129 >= i {
                match p_params(s, j129) {
                    Some((ps, j130)) => if j130 >= j129 {
                        match p_block(s, j130) {
                            Some((b, j131)) => {
                                Some((Function { name, generator, params: lst(ps), body: b }, j131))
                            },
                            None => None,
                        }
                    } else { None },
                    None => None,
                }
            } else { None },
            None => None,
        }
    }
}
#[verifier::opaque]
pub open spec fn p_class_mandatory<'a>(s: Seq<Tok<'a>>, i: int) -> Option<(Class<'a, MandatoryName<'a>>, int)>
    decreases rem(s, i), 12int
{
    match p_mandatory_name(s, i) {
        Some((name, j132)) => if j132 >= i {
            if (at(s, j132).kind is Extends) {
                if plain(s, j132 + 1) {
                    match p_expr(s, j132 + 1, 0, 0) {
                        Some((e, j133)) => if j133 >= j132 + 1 {
                            let extends = Some(e);
                            match p_block_member(s, j133) {
                                Some((b, j134)) => {
                                    Some((Class { name, extends, body: b }, j134))
                                },
                                None => None,
                            }
                        } else { None },
                        None => None,
                    }
                } else { None }
            }
            else {
                let extends = None;
                match p_block_member(s, j132) {
                    Some((b, j135)) => {
                        Some((Class { name, extends, body: b }, j135))
                    },
                    None => None,
                }
            }
        } else { None },
        None => None,
    }
}
pub open spec fn p_optional_name<'a>(s: Seq<Tok<'a>>, i: int) -> Option<(OptionalName<'a>, int)>
{
    if (at(s, i).kind is Identifier) {
        let n = at(s, i).text;
        if plain(s, i + 1) {
            Some((OptionalName(Some(nd(n))), i + 1))
        } else { None }
    }
    else {
        Some((OptionalName(None), i))
    }
}
pub open spec fn p_mandatory_name<'a>(s: Seq<Tok<'a>>, i: int) -> Option<(MandatoryName<'a>, int)>
{
    let n = at(s, i).text;
    if at(s, i).kind is Identifier && plain(s, i + 1) {
        Some((MandatoryName(nd(n)), i + 1))
    } else { None }
}
#[verifier::opaque]
pub open spec fn p_block_member<'a>(s: Seq<Tok<'a>>, i: int) -> Option<(BlockNode<'a, ClassMember<'a>>, int)>
    decreases rem(s, i), 8int
{
    if at(s, i).kind is BraceOpen && plain(s, i + 1) {
        match p_members(s, i + 1, Seq::empty()) {
            Some((b, j136)) => {
                if at(s, j136).kind is BraceClose && plain(s, j136 + 1) {
                    Some((nd(Block { body: lst(b) }), j136 + 1))
                } else { None }
            },
            None => None,
        }
    } else { None }
}
#[verifier::opaque]
pub open spec fn p_members<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<Node<'a, ClassMember<'a>>>) -> Option<(Seq<Node<'a, ClassMember<'a>>>, int)>
    decreases rem(s, i), 30int
{
    if (at(s, i).kind is BraceClose || at(s, i).kind is EndOfProgram) {
        Some((acc, i))
    }
    else {
        match p_member(s, i) {
            Some((x, j137)) => if j137 > i {
                p_members(s, j137, acc.push(x))
            } else { None },
            None => None,
        }
    }
}
#[verifier::opaque]
pub open spec fn p_member<'a>(s: Seq<Tok<'a>>, i: int) -> Option<(Node<'a, ClassMember<'a>>, int)>
    decreases rem(s, i), 29int
{
    if (at(s, i).kind is Static) {
        if plain(s, i + 1) {
            let is_static = true;
            {
                let (is_static) = (is_static);
                if is_word(at(s, i + 1).kind) {
                    let label = at(s, i + 1).text;
                    if plain(s, i + 2) {
                        if is_word(at(s, i + 2).kind) {
                            let key = nd(PropertyKey::Literal(at(s, i + 2).text));
                            if plain(s, i + 3) {
                                if label == lit(7628135) {
                                    {
                                        let (is_static, kind, key) = (is_static, MethodKind::Get, key);
                                        if (at(s, i + 3).kind is ParenOpen) {
                                            match p_function_empty(s, i + 3) {
                                                Some((v, j141)) => {
                                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                    if (at(s, j141).kind is Semicolon) {
                                                        if plain(s, j141 + 1) {
                                                            Some((m, j141 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j141))
                                                    }
                                                },
                                                None => None,
                                            }
                                        }
                                        else {
                                            if at(s, i + 3).kind is OperatorAssign && plain(s, i + 4) {
                                                match p_expr(s, i + 4, 0, 0) {
                                                    Some((e, j142)) => {
                                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                        if (at(s, j142).kind is Semicolon) {
                                                            if plain(s, j142 + 1) {
                                                                Some((m, j142 + 1))
                                                            } else { None }
                                                        }
                                                        else {
                                                            Some((m, j142))
                                                        }
                                                    },
                                                    None => None,
                                                }
                                            } else { None }
                                        }
                                    }
                                }
                                else if label == lit(7628147) {
                                    {
                                        let (is_static, kind, key) = (is_static, MethodKind::Set, key);
                                        if (at(s, i + 3).kind is ParenOpen) {
                                            match p_function_empty(s, i + 3) {
                                                Some((v, j144)) => {
                                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                    if (at(s, j144).kind is Semicolon) {
                                                        if plain(s, j144 + 1) {
                                                            Some((m, j144 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j144))
                                                    }
                                                },
                                                None => None,
                                            }
                                        }
                                        else {
                                            if at(s, i + 3).kind is OperatorAssign && plain(s, i + 4) {
                                                match p_expr(s, i + 4, 0, 0) {
                                                    Some((e, j145)) => {
                                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                        if (at(s, j145).kind is Semicolon) {
                                                            if plain(s, j145 + 1) {
                                                                Some((m, j145 + 1))
                                                            } else { None }
                                                        }
                                                        else {
                                                            Some((m, j145))
                                                        }
                                                    },
                                                    None => None,
                                                }
                                            } else { None }
                                        }
                                    }
                                }
                                else {
                                    None
                                }
                            } else { None }
                        }
                        else {
                            let kind = if !is_static && label == lit(138343873104739033351614307) { MethodKind::Constructor } else { MethodKind::Method };
                            {
                                let (is_static, kind, key) = (is_static, kind, nd(PropertyKey::Literal(label)));
                                if (at(s, i + 2).kind is ParenOpen) {
                                    match p_function_empty(s, i + 2) {
                                        Some((v, j147)) => {
                                            let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                            if (at(s, j147).kind is Semicolon) {
                                                if plain(s, j147 + 1) {
                                                    Some((m, j147 + 1))
                                                } else { None }
                                            }
                                            else {
                                                Some((m, j147))
                                            }
                                        },
                                        None => None,
                                    }
                                }
                                else {
                                    if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                        match p_expr(s, i + 3, 0, 0) {
                                            Some((e, j148)) => {
                                                let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                if (at(s, j148).kind is Semicolon) {
                                                    if plain(s, j148 + 1) {
                                                        Some((m, j148 + 1))
                                                    } else { None }
                                                }
                                                else {
                                                    Some((m, j148))
                                                }
                                            },
                                            None => None,
                                        }
                                    } else { None }
                                }
                            }
                        }
                    } else { None }
                }
                else if (at(s, i + 1).kind is LiteralNumber) {
                    let n = at(s, i + 1).text;
                    if plain(s, i + 2) {
                        {
                            let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Literal(n)));
                            if (at(s, i + 2).kind is ParenOpen) {
                                match p_function_empty(s, i + 2) {
                                    Some((v, j150)) => {
                                        let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                        if (at(s, j150).kind is Semicolon) {
                                            if plain(s, j150 + 1) {
                                                Some((m, j150 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j150))
                                        }
                                    },
                                    None => None,
                                }
                            }
                            else {
                                if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                    match p_expr(s, i + 3, 0, 0) {
                                        Some((e, j151)) => {
                                            let m = nd(ClassMember::Literal { is_static, key, value: e });
                                            if (at(s, j151).kind is Semicolon) {
                                                if plain(s, j151 + 1) {
                                                    Some((m, j151 + 1))
                                                } else { None }
                                            }
                                            else {
                                                Some((m, j151))
                                            }
                                        },
                                        None => None,
                                    }
                                } else { None }
                            }
                        }
                    } else { None }
                }
                else if (at(s, i + 1).kind is LiteralBinary) {
                    let n = at(s, i + 1).text;
                    if plain(s, i + 2) {
                        {
                            let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Binary(n)));
                            if (at(s, i + 2).kind is ParenOpen) {
                                match p_function_empty(s, i + 2) {
                                    Some((v, j153)) => {
                                        let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                        if (at(s, j153).kind is Semicolon) {
                                            if plain(s, j153 + 1) {
                                                Some((m, j153 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j153))
                                        }
                                    },
                                    None => None,
                                }
                            }
                            else {
                                if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                    match p_expr(s, i + 3, 0, 0) {
                                        Some((e, j154)) => {
                                            let m = nd(ClassMember::Literal { is_static, key, value: e });
                                            if (at(s, j154).kind is Semicolon) {
                                                if plain(s, j154 + 1) {
                                                    Some((m, j154 + 1))
                                                } else { None }
                                            }
                                            else {
                                                Some((m, j154))
                                            }
                                        },
                                        None => None,
                                    }
                                } else { None }
                            }
                        }
                    } else { None }
                }
                else if (at(s, i + 1).kind is BracketOpen) {
                    if plain(s, i + 2) {
                        match p_expr(s, i + 2, -1, 0) {
                            Some((e, j155)) => if j155 >= i + 2 {
                                if at(s, j155).kind is BracketClose && plain(s, j155 + 1) {
                                    {
                                        let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Computed(e)));
                                        if (at(s, j155 + 1).kind is ParenOpen) {
                                            match p_function_empty(s, j155 + 1) {
                                                Some((v, j157)) => {
                                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                    if (at(s, j157).kind is Semicolon) {
                                                        if plain(s, j157 + 1) {
                                                            Some((m, j157 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j157))
                                                    }
                                                },
                                                None => None,
                                            }
                                        }
                                        else {
                                            if at(s, j155 + 1).kind is OperatorAssign && plain(s, j155 + 2) {
                                                match p_expr(s, j155 + 2, 0, 0) {
                                                    Some((e, j158)) => {
                                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                        if (at(s, j158).kind is Semicolon) {
                                                            if plain(s, j158 + 1) {
                                                                Some((m, j158 + 1))
                                                            } else { None }
                                                        }
                                                        else {
                                                            Some((m, j158))
                                                        }
                                                    },
                                                    None => None,
                                                }
                                            } else { None }
                                        }
                                    }
                                } else { None }
                            } else { None },
                            None => None,
                        }
                    } else { None }
                }
                else {
                    None
                }
            }
        } else { None }
    }
    else {
        let is_static = false;
        {
            let (is_static) = (is_static);
            if is_word(at(s, i).kind) {
                let label = at(s, i).text;
                if plain(s, i + 1) {
                    if is_word(at(s, i + 1).kind) {
                        let key = nd(PropertyKey::Literal(at(s, i + 1).text));
                        if plain(s, i + 2) {
                            if label == lit(7628135) {
                                {
                                    let (is_static, kind, key) = (is_static, MethodKind::Get, key);
                                    if (at(s, i + 2).kind is ParenOpen) {
                                        match p_function_empty(s, i + 2) {
                                            Some((v, j161)) => {
                                                let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                if (at(s, j161).kind is Semicolon) {
                                                    if plain(s, j161 + 1) {
                                                        Some((m, j161 + 1))
                                                    } else { None }
                                                }
                                                else {
                                                    Some((m, j161))
                                                }
                                            },
                                            None => None,
                                        }
                                    }
                                    else {
                                        if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                            match p_expr(s, i + 3, 0, 0) {
                                                Some((e, j162)) => {
                                                    let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                    if (at(s, j162).kind is Semicolon) {
                                                        if plain(s, j162 + 1) {
                                                            Some((m, j162 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j162))
                                                    }
                                                },
                                                None => None,
                                            }
                                        } else { None }
                                    }
                                }
                            }
                            else if label == lit(7628147) {
                                {
                                    let (is_static, kind, key) = (is_static, MethodKind::Set, key);
                                    if (at(s, i + 2).kind is ParenOpen) {
                                        match p_function_empty(s, i + 2) {
                                            Some((v, j164)) => {
                                                let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                if (at(s, j164).kind is Semicolon) {
                                                    if plain(s, j164 + 1) {
                                                        Some((m, j164 + 1))
                                                    } else { None }
                                                }
                                                else {
                                                    Some((m, j164))
                                                }
                                            },
                                            None => None,
                                        }
                                    }
                                    else {
                                        if at(s, i + 2).kind is OperatorAssign && plain(s, i + 3) {
                                            match p_expr(s, i + 3, 0, 0) {
                                                Some((e, j165)) => {
                                                    let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                    if (at(s, j165).kind is Semicolon) {
                                                        if plain(s, j165 + 1) {
                                                            Some((m, j165 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j165))
                                                    }
                                                },
                                                None => None,
                                            }
                                        } else { None }
                                    }
                                }
                            }
                            else {
                                None
                            }
                        } else { None }
                    }
                    else {
                        let kind = if !is_static && label == lit(138343873104739033351614307) { MethodKind::Constructor } else { MethodKind::Method };
                        {
                            let (is_static, kind, key) = (is_static, kind, nd(PropertyKey::Literal(label)));
                            if (at(s, i + 1).kind is ParenOpen) {
                                match p_function_empty(s, i + 1) {
                                    Some((v, j167)) => {
                                        let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                        if (at(s, j167).kind is Semicolon) {
                                            if plain(s, j167 + 1) {
                                                Some((m, j167 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j167))
                                        }
                                    },
                                    None => None,
                                }
                            }
                            else {
                                if at(s, i + 1).kind is OperatorAssign && plain(s, i + 2) {
                                    match p_expr(s, i + 2, 0, 0) {
                                        Some((e, j168)) => {
                                            let m = nd(ClassMember::Literal { is_static, key, value: e });
                                            if (at(s, j168).kind is Semicolon) {
                                                if plain(s, j168 + 1) {
                                                    Some((m, j168 + 1))
                                                } else { None }
                                            }
                                            else {
                                                Some((m, j168))
                                            }
                                        },
                                        None => None,
                                    }
                                } else { None }
                            }
                        }
                    }
                } else { None }
            }
            else if (at(s, i).kind is LiteralNumber) {
                let n = at(s, i).text;
                if plain(s, i + 1) {
                    {
                        let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Literal(n)));
                        if (at(s, i + 1).kind is ParenOpen) {
                            match p_function_empty(s, i + 1) {
                                Some((v, j170)) => {
                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                    if (at(s, j170).kind is Semicolon) {
                                        if plain(s, j170 + 1) {
                                            Some((m, j170 + 1))
                                        } else { None }
                                    }
                                    else {
                                        Some((m, j170))
                                    }
                                },
                                None => None,
                            }
                        }
                        else {
                            if at(s, i + 1).kind is OperatorAssign && plain(s, i + 2) {
                                match p_expr(s, i + 2, 0, 0) {
                                    Some((e, j171)) => {
                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                        if (at(s, j171).kind is Semicolon) {
                                            if plain(s, j171 + 1) {
                                                Some((m, j171 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j171))
                                        }
                                    },
                                    None => None,
                                }
                            } else { None }
                        }
                    }
                } else { None }
            }
            else if (at(s, i).kind is LiteralBinary) {
                let n = at(s, i).text;
                if plain(s, i + 1) {
                    {
                        let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Binary(n)));
                        if (at(s, i + 1).kind is ParenOpen) {
                            match p_function_empty(s, i + 1) {
                                Some((v, j173)) => {
                                    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                    if (at(s, j173).kind is Semicolon) {
                                        if plain(s, j173 + 1) {
                                            Some((m, j173 + 1))
                                        } else { None }
                                    }
                                    else {
                                        Some((m, j173))
                                    }
                                },
                                None => None,
                            }
                        }
                        else {
                            if at(s, i + 1).kind is OperatorAssign && plain(s, i + 2) {
                                match p_expr(s, i + 2, 0, 0) {
                                    Some((e, j174)) => {
                                        let m = nd(ClassMember::Literal { is_static, key, value: e });
                                        if (at(s, j174).kind is Semicolon) {
                                            if plain(s, j174 + 1) {
                                                Some((m, j174 + 1))
                                            } else { None }
                                        }
                                        else {
                                            Some((m, j174))
                                        }
                                    },
                                    None => None,
                                }
                            } else { None }
                        }
                    }
                } else { None }
            }
            else if (at(s, i).kind is BracketOpen) {
                if plain(s, i + 1) {
                    match p_expr(s, i + 1, -1, 0) {
                        Some((e, j175)) => if j175 >= i + 1 {
                            if at(s, j175).kind is BracketClose && plain(s, j175 + 1) {
                                {
                                    let (is_static, kind, key) = (is_static, MethodKind::Method, nd(PropertyKey::Computed(e)));
                                    if (at(s, j175 + 1).kind is ParenOpen) {
                                        match p_function_empty(s, j175 + 1) {
                                            Some((v, j177)) => {
                                                let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) });
                                                if (at(s, j177).kind is Semicolon) {
                                                    if plain(s, j177 + 1) {
                                                        Some((m, j177 + 1))
                                                    } else { None }
                                                }
                                                else {
                                                    Some((m, j177))
                                                }
                                            },
                                            None => None,
                                        }
                                    }
                                    else {
                                        if at(s, j175 + 1).kind is OperatorAssign && plain(s, j175 + 2) {
                                            match p_expr(s, j175 + 2, 0, 0) {
                                                Some((e, j178)) => {
                                                    let m = nd(ClassMember::Literal { is_static, key, value: e });
                                                    if (at(s, j178).kind is Semicolon) {
                                                        if plain(s, j178 + 1) {
                                                            Some((m, j178 + 1))
                                                        } else { None }
                                                    }
                                                    else {
                                                        Some((m, j178))
                                                    }
                                                },
                                                None => None,
                                            }
                                        } else { None }
                                    }
                                }
                            } else { None }
                        } else { None },
                        None => None,
                    }
                } else { None }
            }
            else {
                None
            }
        }
    }
}
#[verifier::opaque]
pub open spec fn p_params<'a>(s: Seq<Tok<'a>>, i: int) -> Option<(Seq<Node<'a, Pattern<'a>>>, int)>
    decreases rem(s, i), 11int
{
    if at(s, i).kind is ParenOpen && plain(s, i + 1) {
        p_params_next(s, i + 1, Seq::empty())
    } else { None }
}
#[verifier::opaque]
pub open spec fn p_params_next<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<Node<'a, Pattern<'a>>>) -> Option<(Seq<Node<'a, Pattern<'a>>>, int)>
    decreases rem(s, i), 14int
{
    if (at(s, i).kind is ParenClose) {
        if plain(s, i + 1) {
            Some((acc, i + 1))
        } else { None }
    }
    else if (at(s, i).kind is OperatorSpread) {
        match p_rest_element(s, i) {
            Some((p, j180)) => {
                Some((acc.push(p), j180))
            },
            None => None,
        }
    }
    else {
        match p_param(s, i) {
            Some((p, j181)) => if j181 >= i {
                p_params_rest(s, j181, acc.push(p))
            } else { None },
            None => None,
        }
    }
}
#[verifier::opaque]
pub open spec fn p_params_rest<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<Node<'a, Pattern<'a>>>) -> Option<(Seq<Node<'a, Pattern<'a>>>, int)>
    decreases rem(s, i), 12int
{
    if (at(s, i).kind is Comma) {
        if plain(s, i + 1) {
            p_params_next(s, i + 1, acc)
        } else { None }
    }
    else {
        if at(s, i).kind is ParenClose && plain(s, i + 1) {
            Some((acc, i + 1))
        } else { None }
    }
}
#[verifier::opaque]
pub open spec fn p_rest_element<'a>(s: Seq<Tok<'a>>, i: int) -> Option<(Node<'a, Pattern<'a>>, int)>
    decreases rem(s, i), 5int
{
    if !(at(s, i).kind is EndOfProgram) && plain(s, i + 1) {
        let n = nd(at(s, i + 1).text);
        if at(s, i + 1).kind is Identifier && plain(s, i + 2) {
            if at(s, i + 2).kind is ParenClose && plain(s, i + 3) {
                Some((nd(Pattern::RestElement { argument: n }), i + 3))
            } else { None }
        } else { None }
    } else { None }
}
#[verifier::opaque]
pub open spec fn p_param<'a>(s: Seq<Tok<'a>>, i: int) -> Option<(Node<'a, Pattern<'a>>, int)>
    decreases rem(s, i), 13int
{
    match p_pattern(s, i) {
        Some((p, j184)) => if j184 >= i {
            p_pattern_assign(s, j184, p)
        } else { None },
        None => None,
    }
}
#[verifier::opaque]
pub open spec fn p_pattern_assign<'a>(s: Seq<Tok<'a>>, i: int, left: Node<'a, Pattern<'a>>) -> Option<(Node<'a, Pattern<'a>>, int)>
    decreases rem(s, i), 5int
{
    if (at(s, i).kind is OperatorAssign) {
        if plain(s, i + 1) {
            match p_expr(s, i + 1, 0, 0) {
                Some((e, j186)) => {
                    Some((nd(Pattern::AssignmentPattern { left, right: e }), j186))
                },
                None => None,
            }
        } else { None }
    }
    else {
        Some((left, i))
    }
}
#[verifier::opaque]
pub open spec fn p_pattern<'a>(s: Seq<Tok<'a>>, i: int) -> Option<(Node<'a, Pattern<'a>>, int)>
    decreases rem(s, i), 12int
{
    if (at(s, i).kind is Identifier) {
        let n = at(s, i).text;
        if plain(s, i + 1) {
            Some((nd(Pattern::Identifier(n)), i + 1))
        } else { None }
    }
    else if (at(s, i).kind is BracketOpen) {
        {
            if !(at(s, i).kind is EndOfProgram) && plain(s, i + 1) {
                match p_pattern_items(s, i + 1) {
                    Some((l, j188)) => {
                        if at(s, j188).kind is BracketClose && plain(s, j188 + 1) {
                            Some((nd(Pattern::ArrayPattern { elements: lst(l) }), j188 + 1))
                        } else { None }
                    },
                    None => None,
                }
            } else { None }
        }
    }
    else if (at(s, i).kind is BraceOpen) {
        {
            if !(at(s, i).kind is EndOfProgram) && plain(s, i + 1) {
                match p_properties(s, i + 1) {
                    Some((l, j190)) => {
                        if at(s, j190).kind is BraceClose && plain(s, j190 + 1) {
                            Some((nd(Pattern::ObjectPattern { properties: lst(l) }), j190 + 1))
                        } else { None }
                    },
                    None => None,
                }
            } else { None }
        }
    }
    else {
        None
    }
}
#[verifier::opaque]
pub open spec fn p_pattern_item<'a>(s: Seq<Tok<'a>>, i: int) -> Option<(Node<'a, Pattern<'a>>, int)>
    decreases rem(s, i), 14int
{
    if (at(s, i).kind is Comma || at(s, i).kind is BracketClose) {
        Some((nd(Pattern::Void), i))
    }
    else {
        p_param(s, i)
    }
}
#[verifier::opaque]
pub open spec fn p_pattern_items<'a>(s: Seq<Tok<'a>>, i: int) -> Option<(Seq<Node<'a, Pattern<'a>>>, int)>
    decreases rem(s, i), 30int
{
    if (at(s, i).kind is BracketClose) {
        Some((Seq::empty(), i))
    }
    else {
        match p_pattern_item(s, i) {
            Some((x, j192)) => if j192 >= i {
                p_pattern_items_rest(s, j192, Seq::empty().push(x))
            } else { None },
            None => None,
        }
    }
}
#[verifier::opaque]
pub open spec fn p_pattern_items_rest<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<Node<'a, Pattern<'a>>>) -> Option<(Seq<Node<'a, Pattern<'a>>>, int)>
    decreases rem(s, i), 1int
{
    if (at(s, i).kind is BracketClose) {
        Some((acc, i))
    }
    else {
        if at(s, i).kind is Comma && plain(s, i + 1) {
            match p_pattern_item(s, i + 1) {
                Some((x, j194)) => if j194 >= i + 1 {
                    p_pattern_items_rest(s, j194, acc.push(x))
                } else { None },
                None => None,
            }
        } else { None }
    }
}
#[verifier::opaque]
pub open spec fn p_array_items<'a>(s: Seq<Tok<'a>>, i: int) -> Option<(Seq<ExpressionNode<'a>>, int)>
    decreases rem(s, i), 30int
{
    if (at(s, i).kind is BracketClose) {
        Some((Seq::empty(), i))
    }
    else {
        match p_expr(s, i, 0, 1) {
            Some((x, j196)) => if j196 >= i {
                p_array_items_rest(s, j196, Seq::empty().push(x))
            } else { None },
            None => None,
        }
    }
}
#[verifier::opaque]
pub open spec fn p_array_items_rest<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<ExpressionNode<'a>>) -> Option<(Seq<ExpressionNode<'a>>, int)>
    decreases rem(s, i), 1int
{
    if (at(s, i).kind is BracketClose) {
        Some((acc, i))
    }
    else {
        if at(s, i).kind is Comma && plain(s, i + 1) {
            match p_expr(s, i + 1, 0, 1) {
                Some((x, j198)) => if j198 >= i + 1 {
                    p_array_items_rest(s, j198, acc.push(x))
                } else { None },
                None => None,
            }
        } else { None }
    }
}
#[verifier::opaque]
pub open spec fn p_expr<'a>(s: Seq<Tok<'a>>, i: int, thr: int, ctx: int) -> Option<(ExpressionNode<'a>, int)>
    decreases rem(s, i), 20int
{
    match p_head(s, i, ctx) {
        Some((x, j200)) => if j200 >= i {
            p_tail(s, j200, x, thr)
        } else { None },
        None => None,
    }
}
#[verifier::opaque]
pub open spec fn p_tail<'a>(s: Seq<Tok<'a>>, i: int, left: ExpressionNode<'a>, thr: int) -> Option<(ExpressionNode<'a>, int)>
    decreases rem(s, i), 16int
{
    if binds(thr, at(s, (i))) {
        match p_op(s, i, left) {
            Some((x, j202)) => if j202 > i {
                p_tail(s, j202, x, thr)
            } else { None },
            None => None,
        }
    }
    else {
        Some((left, i))
    }
}
#[verifier::opaque]
pub open spec fn p_op<'a>(s: Seq<Tok<'a>>, i: int, left: ExpressionNode<'a>) -> Option<(ExpressionNode<'a>, int)>
    decreases rem(s, i), 14int
{
    if (at(s, i).kind is Comma) {
        if plain(s, i + 1) {
            match p_expr(s, i + 1, 0, 0) {
                Some((x, j204)) => if j204 >= i + 1 {
                    match p_sequence(s, j204, Seq::empty().push(left).push(x)) {
                        Some((l, j205)) => {
                            Some((nd(Expression::Sequence(SequenceExpression { body: lst(l) })), j205))
                        },
                        None => None,
                    }
                } else { None },
                None => None,
            }
        } else { None }
    }
    else if (at(s, i).kind is OperatorConditional) {
        if plain(s, i + 1) {
            match p_expr(s, i + 1, 0, 0) {
                Some((a, j206)) => if j206 >= i + 1 {
                    if at(s, j206).kind is Colon && plain(s, j206 + 1) {
                        match p_expr(s, j206 + 1, 0, 0) {
                            Some((b, j207)) => {
                                Some((nd(Expression::Conditional(ConditionalExpression { test: left, consequent: a, alternate: b })), j207))
                            },
                            None => None,
                        }
                    } else { None }
                } else { None },
                None => None,
            }
        } else { None }
    }
    else if (at(s, i).kind is OperatorFatArrow) {
        if plain(s, i + 1) {
            match p_arrow(s, i + 1, arrow_params(left)) {
                Some((a, j208)) => {
                    Some((nd(Expression::Arrow(a)), j208))
                },
                None => None,
            }
        } else { None }
    }
    else if (at(s, i).kind is Accessor) {
        let name = at(s, i).acc;
        if plain(s, i + 1) {
            Some((nd(Expression::Member(MemberExpression { object: left, property: nd(name) })), i + 1))
        } else { None }
    }
    else if (at(s, i).kind is ParenOpen) {
        if plain(s, i + 1) {
            match p_arguments(s, i + 1) {
                Some((l, j209)) => {
                    if at(s, j209).kind is ParenClose && plain(s, j209 + 1) {
                        Some((nd(Expression::Call(CallExpression { callee: left, arguments: lst(l) })), j209 + 1))
                    } else { None }
                },
                None => None,
            }
        } else { None }
    }
    else if (at(s, i).kind is BracketOpen) {
        if plain(s, i + 1) {
            match p_expr(s, i + 1, -1, 0) {
                Some((e, j210)) => {
                    if at(s, j210).kind is BracketClose && plain(s, j210 + 1) {
                        Some((nd(Expression::ComputedMember(ComputedMemberExpression { object: left, property: e })), j210 + 1))
                    } else { None }
                },
                None => None,
            }
        } else { None }
    }
    else if (at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) {
        match p_template(s, i) {
            Some((q, j211)) => {
                Some((nd(Expression::TaggedTemplate(TaggedTemplateExpression { tag: left, quasi: nd(q) })), j211))
            },
            None => None,
        }
    }
    else if (at(s, i).kind is OperatorIncrement || at(s, i).kind is OperatorDecrement) {
        let op = operator(at(s, i).kind);
        if lvalue(*left.item) {
            if plain(s, i + 1) {
                Some((nd(Expression::Postfix(PostfixExpression { operator: op, operand: left })), i + 1))
            } else { None }
        } else { None }
    }
    else if is_assign(at(s, i).kind) {
        let op = operator(at(s, i).kind);
        if lvalue(*left.item) {
            if plain(s, i + 1) {
                match p_expr(s, i + 1, 0, 0) {
                    Some((e, j212)) => {
                        Some((nd(Expression::Binary(BinaryExpression { operator: op, left, right: e })), j212))
                    },
                    None => None,
                }
            } else { None }
        } else { None }
    }
    else if is_binary(at(s, i).kind) {
        let op = operator(at(s, i).kind);
        let thr = if at(s, (i)).kind is OperatorExponent { 140 } else { level(at(s, i).kind) };
        if plain(s, i + 1) {
            match p_expr(s, i + 1, thr, 0) {
                Some((e, j213)) => {
                    Some((nd(Expression::Binary(BinaryExpression { operator: op, left, right: e })), j213))
                },
                None => None,
            }
        } else { None }
    }
    else {
        None
    }
}
#[verifier::opaque]
pub open spec fn p_sequence<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<ExpressionNode<'a>>) -> Option<(Seq<ExpressionNode<'a>>, int)>
    decreases rem(s, i), 5int
{
    if (at(s, i).kind is Comma) {
        if plain(s, i + 1) {
            match p_expr(s, i + 1, 0, 0) {
                Some((x, j214)) => if j214 >= i + 1 {
                    p_sequence(s, j214, acc.push(x))
                } else { None },
                None => None,
            }
        } else { None }
    }
    else {
        Some((acc, i))
    }
}
#[verifier::opaque]
pub open spec fn p_arguments<'a>(s: Seq<Tok<'a>>, i: int) -> Option<(Seq<ExpressionNode<'a>>, int)>
    decreases rem(s, i), 30int
{
    if (at(s, i).kind is ParenClose) {
        Some((Seq::empty(), i))
    }
    else {
        match p_expr(s, i, 0, 2) {
            Some((x, j216)) => if j216 >= i {
                p_arguments_rest(s, j216, Seq::empty().push(x))
            } else { None },
            None => None,
        }
    }
}
#[verifier::opaque]
pub open spec fn p_arguments_rest<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<ExpressionNode<'a>>) -> Option<(Seq<ExpressionNode<'a>>, int)>
    decreases rem(s, i), 5int
{
    if (at(s, i).kind is ParenClose) {
        Some((acc, i))
    }
    else {
        if at(s, i).kind is Comma && plain(s, i + 1) {
            if (at(s, i + 1).kind is ParenClose) {
                Some((acc, i + 1))
            }
            else {
                match p_expr(s, i + 1, 0, 2) {
                    Some((x, j218)) => if j218 >= i + 1 {
                        p_arguments_rest(s, j218, acc.push(x))
                    } else { None },
                    None => None,
                }
            }
        } else { None }
    }
}
#[verifier::opaque]
pub open spec fn p_arrow<'a>(s: Seq<Tok<'a>>, i: int, params: Seq<ExpressionNode<'a>>) -> Option<(ArrowExpression<'a>, int)>
    decreases rem(s, i), 30int
{
    if patterns_of(params, 0, Seq::empty()) is Some {
        let ps = lst(patterns_of(params, 0, Seq::empty())->0);
        if (at(s, i).kind is BraceOpen) {
            match p_block(s, i) {
                Some((b, j220)) => {
                    Some((ArrowExpression { params: ps, body: ArrowBody::Block(b) }, j220))
                },
                None => None,
            }
        }
        else {
            match p_expr(s, i, 0, 0) {
                Some((e, j221)) => {
                    Some((ArrowExpression { params: ps, body: ArrowBody::Expression(e) }, j221))
                },
                None => None,
            }
        }
    } else { None }
}
#[verifier::opaque]
pub open spec fn p_head<'a>(s: Seq<Tok<'a>>, i: int, ctx: int) -> Option<(ExpressionNode<'a>, int)>
    decreases rem(s, i), 18int
{
    if (at(s, i).kind is Identifier) {
        let n = at(s, i).text;
        if plain(s, i + 1) {
            Some((nd(Expression::Identifier(n)), i + 1))
        } else { None }
    }
    else if (at(s, i).kind is ParenOpen) {
        {
            if !(at(s, i).kind is EndOfProgram) && plain(s, i + 1) {
                if (at(s, i + 1).kind is ParenClose) {
                    if plain(s, i + 2) {
                        if at(s, i + 2).kind is OperatorFatArrow && plain(s, i + 3) {
                            match p_arrow(s, i + 3, Seq::empty()) {
                                Some((a, j223)) => {
                                    Some((nd(Expression::Arrow(a)), j223))
                                },
                                None => None,
                            }
                        } else { None }
                    } else { None }
                }
                else {
                    match p_expr(s, i + 1, -1, 0) {
                        Some((e, j224)) => {
                            if at(s, j224).kind is ParenClose && plain(s, j224 + 1) {
                                Some((e, j224 + 1))
                            } else { None }
                        },
                        None => None,
                    }
                }
            } else { None }
        }
    }
    else if (at(s, i).kind is BracketOpen) {
        if plain(s, i + 1) {
            match p_array_items(s, i + 1) {
                Some((l, j225)) => {
                    if at(s, j225).kind is BracketClose && plain(s, j225 + 1) {
                        Some((nd(Expression::Array(ArrayExpression { body: lst(l) })), j225 + 1))
                    } else { None }
                },
                None => None,
            }
        } else { None }
    }
    else if (at(s, i).kind is BraceOpen) {
        if plain(s, i + 1) {
            match p_properties(s, i + 1) {
                Some((l, j226)) => {
                    if at(s, j226).kind is BraceClose && plain(s, j226 + 1) {
                        Some((nd(Expression::Object(ObjectExpression { body: lst(l) })), j226 + 1))
                    } else { None }
                },
                None => None,
            }
        } else { None }
    }
    else if (at(s, i).kind is OperatorNew) {
        if plain(s, i + 1) {
            p_new(s, i + 1)
        } else { None }
    }
    else if is_unary(at(s, i).kind) {
        let op = operator(at(s, i).kind);
        if plain(s, i + 1) {
            match p_expr(s, i + 1, 150, 0) {
                Some((e, j228)) => {
                    Some((nd(Expression::Prefix(PrefixExpression { operator: op, operand: e })), j228))
                },
                None => None,
            }
        } else { None }
    }
    else if (at(s, i).kind is OperatorDivision) {
        if in_regex(s, i + 1) {
            let v = at(s, i + 1).text;
            if at(s, i + 1).kind is LiteralRegEx && plain(s, i + 2) {
                Some((nd(Expression::Literal(Literal::RegEx(v))), i + 2))
            } else { None }
        } else { None }
    }
    else if (at(s, i).kind is Function) {
        if plain(s, i + 1) {
            match p_function_optional(s, i + 1) {
                Some((f, j229)) => {
                    Some((nd(Expression::Function(f)), j229))
                },
                None => None,
            }
        } else { None }
    }
    else if (at(s, i).kind is Class) {
        if plain(s, i + 1) {
            match p_class_optional(s, i + 1) {
                Some((f, j230)) => {
                    Some((nd(Expression::Class(f)), j230))
                },
                None => None,
            }
        } else { None }
    }
    else if (at(s, i).kind is This) {
        if plain(s, i + 1) {
            Some((nd(Expression::This(ThisExpression)), i + 1))
        } else { None }
    }
    else if (at(s, i).kind is LiteralTrue) {
        if plain(s, i + 1) {
            Some((nd(Expression::Literal(Literal::True)), i + 1))
        } else { None }
    }
    else if (at(s, i).kind is LiteralFalse) {
        if plain(s, i + 1) {
            Some((nd(Expression::Literal(Literal::False)), i + 1))
        } else { None }
    }
    else if (at(s, i).kind is LiteralNull) {
        if plain(s, i + 1) {
            Some((nd(Expression::Literal(Literal::Null)), i + 1))
        } else { None }
    }
    else if (at(s, i).kind is LiteralUndefined) {
        if plain(s, i + 1) {
            Some((nd(Expression::Literal(Literal::Undefined)), i + 1))
        } else { None }
    }
    else if (at(s, i).kind is LiteralString) {
        let n = at(s, i).text;
        if plain(s, i + 1) {
            Some((nd(Expression::Literal(Literal::String(n))), i + 1))
        } else { None }
    }
    else if (at(s, i).kind is LiteralNumber) {
        let n = at(s, i).text;
        if plain(s, i + 1) {
            Some((nd(Expression::Literal(Literal::Number(n))), i + 1))
        } else { None }
    }
    else if (at(s, i).kind is LiteralBinary) {
        let n = at(s, i).text;
        if plain(s, i + 1) {
            Some((nd(Expression::Literal(Literal::Binary(n))), i + 1))
        } else { None }
    }
    else if (at(s, i).kind is TemplateOpen || at(s, i).kind is TemplateClosed) {
        match p_template(s, i) {
            Some((q, j231)) => {
                Some((nd(Expression::Template(q)), j231))
            },
            None => None,
        }
    }
    else if (at(s, i).kind is OperatorSpread) && ctx != 0 {
        if plain(s, i + 1) {
            match p_expr(s, i + 1, 0, 0) {
                Some((e, j232)) => {
                    Some((nd(Expression::Spread(SpreadExpression { argument: e })), j232))
                },
                None => None,
            }
        } else { None }
    }
    else if (at(s, i).kind is Comma || at(s, i).kind is BracketClose) && ctx == 1 {
        Some((nd(Expression::Void), i))
    }
    else {
        None
    }
}
#[verifier::opaque]
pub open spec fn p_new<'a>(s: Seq<Tok<'a>>, i: int) -> Option<(ExpressionNode<'a>, int)>
    decreases rem(s, i), 30int
{
    if (at(s, i).kind is Accessor) {
        let n = at(s, i).acc;
        if n == lit(127978876068212) {
            if plain(s, i + 1) {
                Some((nd(Expression::MetaProperty(MetaPropertyExpression { meta: nd(lit(7824750)), property: nd(n) })), i + 1))
            } else { None }
        } else { None }
    }
    else {
        match p_expr(s, i, 175, 0) {
            Some((c, j233)) => if j233 >= i {
                match ({
                    let (callee) = (c);
                    if (at(s, j233).kind is ParenOpen) {
                        if plain(s, j233 + 1) {
                            match p_arguments(s, j233 + 1) {
                                Some((l, j235)) => {
                                    if at(s, j235).kind is ParenClose && plain(s, j235 + 1) {
                                        Some((nd(Expression::Call(CallExpression { callee, arguments: lst(l) })), j235 + 1))
                                    } else { None }
                                },
                                None => None,
                            }
                        } else { None }
                    }
                    else if callee.item is Call {
                        Some((nd(Expression::Call(CallExpression { callee, arguments: lst(Seq::empty()) })), j233))
                    }
                    else {
                        Some((callee, j233))
                    }
                }) {
                    Some((o, j234)) => {
                        Some((nd(Expression::Prefix(PrefixExpression { operator: OperatorKind::New, operand: o })), j234))
                    },
                    None => None,
                }
            } else { None },
            None => None,
        }
    }
}
#[verifier::opaque]
pub open spec fn p_properties<'a>(s: Seq<Tok<'a>>, i: int) -> Option<(Seq<Node<'a, Property<'a>>>, int)>
    decreases rem(s, i), 30int
{
    if (at(s, i).kind is BraceClose) {
        Some((Seq::empty(), i))
    }
    else {
        match p_property(s, i) {
            Some((x, j236)) => if j236 >= i {
                p_properties_rest(s, j236, Seq::empty().push(x))
            } else { None },
            None => None,
        }
    }
}
#[verifier::opaque]
pub open spec fn p_properties_rest<'a>(s: Seq<Tok<'a>>, i: int, acc: Seq<Node<'a, Property<'a>>>) -> Option<(Seq<Node<'a, Property<'a>>>, int)>
    decreases rem(s, i), 5int
{
    if (at(s, i).kind is BraceClose) {
        Some((acc, i))
    }
    else {
        if at(s, i).kind is Comma && plain(s, i + 1) {
            if (at(s, i + 1).kind is BraceClose) {
                Some((acc, i + 1))
            }
            else {
                match p_property(s, i + 1) {
                    Some((x, j238)) => if j238 >= i + 1 {
                        p_properties_rest(s, j238, acc.push(x))
                    } else { None },
                    None => None,
                }
            }
        } else { None }
    }
}
#[verifier::opaque]
pub open spec fn p_property<'a>(s: Seq<Tok<'a>>, i: int) -> Option<(Node<'a, Property<'a>>, int)>
    decreases rem(s, i), 29int
{
    if is_word(at(s, i).kind) {
        let n = at(s, i).text;
        if plain(s, i + 1) {
            if (at(s, i + 1).kind is Colon || at(s, i + 1).kind is ParenOpen) {
                {
                    let (key) = (nd(PropertyKey::Literal(n)));
                    if (at(s, i + 1).kind is Colon) {
                        if plain(s, i + 2) {
                            match p_expr(s, i + 2, 0, 0) {
                                Some((e, j241)) => {
                                    Some((nd(Property::Literal { key, value: e }), j241))
                                },
                                None => None,
                            }
                        } else { None }
                    }
                    else if (at(s, i + 1).kind is ParenOpen) {
                        match p_function_empty(s, i + 1) {
                            Some((f, j242)) => {
                                Some((nd(Property::Method { key, value: nd(f) }), j242))
                            },
                            None => None,
                        }
                    }
                    else {
                        None
                    }
                }
            }
            else {
                Some((nd(Property::Shorthand(n)), i + 1))
            }
        } else { None }
    }
    else if (at(s, i).kind is OperatorSpread) {
        if plain(s, i + 1) {
            match p_expr(s, i + 1, 0, 0) {
                Some((e, j243)) => {
                    Some((nd(Property::Spread { argument: e }), j243))
                },
                None => None,
            }
        } else { None }
    }
    else if (at(s, i).kind is LiteralString || at(s, i).kind is LiteralNumber) {
        let n = at(s, i).text;
        if plain(s, i + 1) {
            {
                let (key) = (nd(PropertyKey::Literal(n)));
                if (at(s, i + 1).kind is Colon) {
                    if plain(s, i + 2) {
                        match p_expr(s, i + 2, 0, 0) {
                            Some((e, j245)) => {
                                Some((nd(Property::Literal { key, value: e }), j245))
                            },
                            None => None,
                        }
                    } else { None }
                }
                else if (at(s, i + 1).kind is ParenOpen) {
                    match p_function_empty(s, i + 1) {
                        Some((f, j246)) => {
                            Some((nd(Property::Method { key, value: nd(f) }), j246))
                        },
                        None => None,
                    }
                }
                else {
                    None
                }
            }
        } else { None }
    }
    else if (at(s, i).kind is LiteralBinary) {
        let n = at(s, i).text;
        if plain(s, i + 1) {
            {
                let (key) = (nd(PropertyKey::Binary(n)));
                if (at(s, i + 1).kind is Colon) {
                    if plain(s, i + 2) {
                        match p_expr(s, i + 2, 0, 0) {
                            Some((e, j248)) => {
                                Some((nd(Property::Literal { key, value: e }), j248))
                            },
                            None => None,
                        }
                    } else { None }
                }
                else if (at(s, i + 1).kind is ParenOpen) {
                    match p_function_empty(s, i + 1) {
                        Some((f, j249)) => {
                            Some((nd(Property::Method { key, value: nd(f) }), j249))
                        },
                        None => None,
                    }
                }
                else {
                    None
                }
            }
        } else { None }
    }
    else if (at(s, i).kind is BracketOpen) {
        if plain(s, i + 1) {
            match p_expr(s, i + 1, -1, 0) {
                Some((e, j250)) => if j250 >= i + 1 {
                    if at(s, j250).kind is BracketClose && plain(s, j250 + 1) {
                        {
                            let (key) = (nd(PropertyKey::Computed(e)));
                            if (at(s, j250 + 1).kind is Colon) {
                                if plain(s, j250 + 2) {
                                    match p_expr(s, j250 + 2, 0, 0) {
                                        Some((e, j252)) => {
                                            Some((nd(Property::Literal { key, value: e }), j252))
                                        },
                                        None => None,
                                    }
                                } else { None }
                            }
                            else if (at(s, j250 + 1).kind is ParenOpen) {
                                match p_function_empty(s, j250 + 1) {
                                    Some((f, j253)) => {
                                        Some((nd(Property::Method { key, value: nd(f) }), j253))
                                    },
                                    None => None,
                                }
                            }
                            else {
                                None
                            }
                        }
                    } else { None }
                } else { None },
                None => None,
            }
        } else { None }
    }
    else {
        None
    }
}
#[verifier::opaque]
pub open spec fn p_template<'a>(s: Seq<Tok<'a>>, i: int) -> Option<(TemplateLiteral<'a>, int)>
    decreases rem(s, i), 12int
{
    if (at(s, i).kind is TemplateClosed) {
        let q = nd(at(s, i).quasi);
        if plain(s, i + 1) {
            Some((TemplateLiteral { expressions: lst(Seq::empty()), quasis: lst(Seq::empty().push(q)) }, i + 1))
        } else { None }
    }
    else {
        p_template_parts(s, i, Seq::empty(), Seq::empty())
    }
}
#[verifier::opaque]
pub open spec fn p_template_parts<'a>(s: Seq<Tok<'a>>, i: int, qs: Seq<Node<'a, &'a str>>, es: Seq<ExpressionNode<'a>>) -> Option<(TemplateLiteral<'a>, int)>
    decreases rem(s, i), 11int
{
    let q = nd(at(s, i).quasi);
    if (at(s, i).kind is TemplateClosed) {
        if plain(s, i + 1) {
            Some((TemplateLiteral { expressions: lst(es), quasis: lst(qs.push(q)) }, i + 1))
        } else { None }
    }
    else {
        if at(s, i).kind is TemplateOpen && plain(s, i + 1) {
            match p_expr(s, i + 1, -1, 0) {
                Some((e, j255)) => if j255 >= i + 1 {
                    if (at(s, j255).kind is BraceClose) {
                        if in_quasi(s, j255 + 1) {
                            p_template_parts(s, j255 + 1, qs.push(q), es.push(e))
                        } else { None }
                    } else { None }
                } else { None },
                None => None,
            }
        } else { None }
    }
}
