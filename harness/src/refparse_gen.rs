// written by spec/gen_refparse.py from spec/grammar.py
pub fn is_word(k: T) -> bool { matches!(k, T::Identifier | T::Break | T::Do | T::Case | T::Else | T::Catch | T::Export | T::Class | T::Extends | T::Return | T::While | T::Finally | T::Super | T::With | T::Continue | T::For | T::Switch | T::Yield | T::Debugger | T::Function | T::This | T::Default | T::If | T::Throw | T::Import | T::Try | T::Static | T::OperatorNew | T::OperatorTypeof | T::OperatorVoid | T::OperatorDelete | T::OperatorInstanceof | T::OperatorIn | T::DeclarationVar | T::DeclarationLet | T::DeclarationConst | T::ReservedEnum | T::ReservedImplements | T::ReservedPackage | T::ReservedProtected | T::ReservedInterface | T::ReservedPrivate | T::ReservedPublic | T::LiteralTrue | T::LiteralFalse | T::LiteralNull | T::LiteralUndefined) }
pub fn level(k: T) -> i32 { match k { T::Comma => 0, T::OperatorConditional => 40, T::OperatorFatArrow => 165, T::OperatorIncrement | T::OperatorDecrement => 160, T::ParenOpen => 170, T::BracketOpen | T::Accessor | T::TemplateOpen | T::TemplateClosed => 180, T::OperatorMultiplication => 140, T::OperatorDivision => 140, T::OperatorRemainder => 140, T::OperatorExponent => 145, T::OperatorAddition => 130, T::OperatorSubtraction => 130, T::OperatorBitShiftLeft => 120, T::OperatorBitShiftRight => 120, T::OperatorUBitShiftRight => 120, T::OperatorLesser => 110, T::OperatorLesserEquals => 110, T::OperatorGreater => 110, T::OperatorGreaterEquals => 110, T::OperatorInstanceof => 110, T::OperatorIn => 110, T::OperatorStrictEquality => 100, T::OperatorStrictInequality => 100, T::OperatorEquality => 100, T::OperatorInequality => 100, T::OperatorBitwiseAnd => 90, T::OperatorBitwiseXor => 80, T::OperatorBitwiseOr => 70, T::OperatorLogicalAnd => 60, T::OperatorLogicalOr => 50, T::OperatorAssign => 20, T::OperatorAddAssign => 20, T::OperatorSubtractAssign => 20, T::OperatorExponentAssign => 20, T::OperatorMultiplyAssign => 20, T::OperatorDivideAssign => 20, T::OperatorRemainderAssign => 20, T::OperatorBSLAssign => 20, T::OperatorBSRAssign => 20, T::OperatorUBSRAssign => 20, T::OperatorBitAndAssign => 20, T::OperatorBitXorAssign => 20, T::OperatorBitOrAssign => 20, _ => -10 } }
pub fn is_assign(k: T) -> bool { matches!(k, T::OperatorAssign | T::OperatorAddAssign | T::OperatorSubtractAssign | T::OperatorExponentAssign | T::OperatorMultiplyAssign | T::OperatorDivideAssign | T::OperatorRemainderAssign | T::OperatorBSLAssign | T::OperatorBSRAssign | T::OperatorUBSRAssign | T::OperatorBitAndAssign | T::OperatorBitXorAssign | T::OperatorBitOrAssign) }
pub fn is_binary(k: T) -> bool { matches!(k, T::OperatorMultiplication | T::OperatorDivision | T::OperatorRemainder | T::OperatorExponent | T::OperatorAddition | T::OperatorSubtraction | T::OperatorBitShiftLeft | T::OperatorBitShiftRight | T::OperatorUBitShiftRight | T::OperatorLesser | T::OperatorLesserEquals | T::OperatorGreater | T::OperatorGreaterEquals | T::OperatorInstanceof | T::OperatorIn | T::OperatorStrictEquality | T::OperatorStrictInequality | T::OperatorEquality | T::OperatorInequality | T::OperatorBitwiseAnd | T::OperatorBitwiseXor | T::OperatorBitwiseOr | T::OperatorLogicalAnd | T::OperatorLogicalOr) }
pub fn is_unary(k: T) -> bool { matches!(k, T::OperatorIncrement | T::OperatorDecrement | T::OperatorLogicalNot | T::OperatorBitwiseNot | T::OperatorTypeof | T::OperatorVoid | T::OperatorDelete | T::OperatorAddition | T::OperatorSubtraction) }
pub fn operator(k: T) -> OperatorKind { match k { T::OperatorMultiplication => OperatorKind::Multiplication, T::OperatorDivision => OperatorKind::Division, T::OperatorRemainder => OperatorKind::Remainder, T::OperatorExponent => OperatorKind::Exponent, T::OperatorAddition => OperatorKind::Addition, T::OperatorSubtraction => OperatorKind::Subtraction, T::OperatorBitShiftLeft => OperatorKind::BitShiftLeft, T::OperatorBitShiftRight => OperatorKind::BitShiftRight, T::OperatorUBitShiftRight => OperatorKind::UBitShiftRight, T::OperatorLesser => OperatorKind::Lesser, T::OperatorLesserEquals => OperatorKind::LesserEquals, T::OperatorGreater => OperatorKind::Greater, T::OperatorGreaterEquals => OperatorKind::GreaterEquals, T::OperatorInstanceof => OperatorKind::Instanceof, T::OperatorIn => OperatorKind::In, T::OperatorStrictEquality => OperatorKind::StrictEquality, T::OperatorStrictInequality => OperatorKind::StrictInequality, T::OperatorEquality => OperatorKind::Equality, T::OperatorInequality => OperatorKind::Inequality, T::OperatorBitwiseAnd => OperatorKind::BitwiseAnd, T::OperatorBitwiseXor => OperatorKind::BitwiseXor, T::OperatorBitwiseOr => OperatorKind::BitwiseOr, T::OperatorLogicalAnd => OperatorKind::LogicalAnd, T::OperatorLogicalOr => OperatorKind::LogicalOr, T::OperatorAssign => OperatorKind::Assign, T::OperatorAddAssign => OperatorKind::AddAssign, T::OperatorSubtractAssign => OperatorKind::SubtractAssign, T::OperatorExponentAssign => OperatorKind::ExponentAssign, T::OperatorMultiplyAssign => OperatorKind::MultiplyAssign, T::OperatorDivideAssign => OperatorKind::DivideAssign, T::OperatorRemainderAssign => OperatorKind::RemainderAssign, T::OperatorBSLAssign => OperatorKind::BSLAssign, T::OperatorBSRAssign => OperatorKind::BSRAssign, T::OperatorUBSRAssign => OperatorKind::UBSRAssign, T::OperatorBitAndAssign => OperatorKind::BitAndAssign, T::OperatorBitXorAssign => OperatorKind::BitXorAssign, T::OperatorBitOrAssign => OperatorKind::BitOrAssign, T::OperatorIncrement => OperatorKind::Increment, T::OperatorDecrement => OperatorKind::Decrement, T::OperatorLogicalNot => OperatorKind::LogicalNot, T::OperatorBitwiseNot => OperatorKind::BitwiseNot, T::OperatorTypeof => OperatorKind::Typeof, T::OperatorVoid => OperatorKind::Void, T::OperatorDelete => OperatorKind::Delete, _ => OperatorKind::New } }
impl<'a> RefParser<'a> {
    pub fn r_program(&mut self) -> Option<Vec<StatementNode<'a>>> {
        self.r_program_rest(Vec::new())
    }
    pub fn r_program_rest(&mut self, acc: Vec<StatementNode<'a>>) -> Option<Vec<StatementNode<'a>>> {
        if matches!(self.kind(), T::EndOfProgram) {
            Some(acc)
        } else {
            let x = self.r_statement()?;
            self.r_program_rest(acc.pushed(x))
        }
    }
    pub fn r_statements(&mut self, acc: Vec<StatementNode<'a>>) -> Option<Vec<StatementNode<'a>>> {
        if matches!(self.kind(), T::BraceClose | T::EndOfProgram) {
            Some(acc)
        } else {
            let x = self.r_statement()?;
            self.r_statements(acc.pushed(x))
        }
    }
    pub fn r_semi(&mut self) -> Option<()> {
        if self.asi() == Asi::ExplicitSemicolon {
            self.skip();
            Some(())
        } else if self.asi() == Asi::ImplicitSemicolon {
            Some(())
        } else {
            None
        }
    }
    pub fn r_expression_statement(&mut self) -> Option<StatementNode<'a>> {
        let x = self.r_head(0)?;
        self.r_expression_end(x)
    }
    pub fn r_expression_end(&mut self, left: ExpressionNode<'a>) -> Option<StatementNode<'a>> {
        let r = self.r_tail(left, -1)?;
        let _ = self.r_semi()?;
        Some(self.nd(Statement::Expression(r)))
    }
    pub fn r_ident(&mut self) -> Option<IdentifierNode<'a>> {
        let n = self.text();
        if self.kind() != T::Identifier { return None; }
        self.skip();
        Some(self.nd(n))
    }
    pub fn r_block_end(&mut self) -> Option<()> {
        if self.kind() != T::BraceClose { return None; }
        self.skip();
        Some(())
    }
    pub fn r_statement(&mut self) -> Option<StatementNode<'a>> {
        if matches!(self.kind(), T::Semicolon) {
            self.skip();
            Some(self.nd(Statement::Empty))
        } else if matches!(self.kind(), T::BraceOpen) {
            self.skip();
            let b = self.r_statements(Vec::new())?;
            if self.kind() != T::BraceClose { return None; }
            self.skip();
            Some(self.nd(Statement::Block(Block { body: self.lst(b) })))
        } else if matches!(self.kind(), T::ParenOpen | T::BracketOpen | T::OperatorNew | T::OperatorDivision | T::This | T::LiteralTrue | T::LiteralFalse | T::LiteralNull | T::LiteralUndefined | T::LiteralString | T::LiteralNumber | T::LiteralBinary | T::TemplateOpen | T::TemplateClosed) || is_unary(self.kind()) {
            self.r_expression_statement()
        } else if matches!(self.kind(), T::DeclarationVar) {
            self.r_variable(DeclarationKind::Var)
        } else if matches!(self.kind(), T::DeclarationLet) {
            self.r_variable(DeclarationKind::Let)
        } else if matches!(self.kind(), T::DeclarationConst) {
            self.r_variable(DeclarationKind::Const)
        } else if matches!(self.kind(), T::Break) {
            self.skip();
            let l = self.r_label()?;
            Some(self.nd(Statement::Break(BreakStatement { label: l })))
        } else if matches!(self.kind(), T::Continue) {
            self.skip();
            let l = self.r_label()?;
            Some(self.nd(Statement::Continue(ContinueStatement { label: l })))
        } else if matches!(self.kind(), T::Return) {
            self.skip();
            let r = self.r_return_value()?;
            Some(self.nd(Statement::Return(ReturnStatement { value: r })))
        } else if matches!(self.kind(), T::Throw) {
            self.skip();
            let e = self.r_expr(-1, 0)?;
            let _ = self.r_semi()?;
            Some(self.nd(Statement::Throw(ThrowStatement { value: e })))
        } else if matches!(self.kind(), T::Function) {
            self.skip();
            let f = self.r_function_mandatory()?;
            Some(self.nd(Statement::Function(f)))
        } else if matches!(self.kind(), T::Class) {
            self.skip();
            let f = self.r_class_mandatory()?;
            Some(self.nd(Statement::Class(f)))
        } else if matches!(self.kind(), T::If) {
            self.r_if_statement()
        } else if matches!(self.kind(), T::While) {
            self.skip();
            if self.kind() != T::ParenOpen { return None; }
            self.skip();
            let e = self.r_expr(-1, 0)?;
            if self.kind() != T::ParenClose { return None; }
            self.skip();
            let b = self.r_statement()?;
            Some(self.nd(Statement::While(WhileStatement { test: e, body: b })))
        } else if matches!(self.kind(), T::Do) {
            self.r_do_statement()
        } else if matches!(self.kind(), T::For) {
            self.r_for_statement()
        } else if matches!(self.kind(), T::Switch) {
            self.skip();
            if self.kind() != T::ParenOpen { return None; }
            self.skip();
            let e = self.r_expr(-1, 0)?;
            if self.kind() != T::ParenClose { return None; }
            self.skip();
            let b = self.r_block_case()?;
            Some(self.nd(Statement::Switch(SwitchStatement { discriminant: e, cases: b })))
        } else if matches!(self.kind(), T::Try) {
            self.r_try_statement()
        } else if matches!(self.kind(), T::Identifier) {
            self.r_labeled()
        } else if matches!(self.kind(), T::Import) {
            self.r_import()
        } else if matches!(self.kind(), T::Debugger) {
            self.skip();
            let _ = self.r_semi()?;
            Some(self.nd(Statement::Debugger))
        } else {
            None
        }
    }
    pub fn r_labeled(&mut self) -> Option<StatementNode<'a>> {
        let label = self.text();
        if self.kind() == T::EndOfProgram { return None; }
        self.skip();
        if matches!(self.kind(), T::Colon) {
            self.skip();
            let b = self.r_statement()?;
            Some(self.nd(Statement::Labeled(LabeledStatement { label, body: b })))
        } else {
            let r = self.r_tail(self.nd(Expression::Identifier(label)), -1)?;
            let _ = self.r_semi()?;
            Some(self.nd(Statement::Expression(r)))
        }
    }
    pub fn r_variable(&mut self, kind: DeclarationKind) -> Option<StatementNode<'a>> {
        if self.kind() == T::EndOfProgram { return None; }
        self.skip();
        let d = self.r_declarators()?;
        let _ = self.r_semi()?;
        Some(self.nd(Statement::Declaration(DeclarationStatement { kind, declarators: d })))
    }
    pub fn r_declarators(&mut self) -> Option<NodeList<'a, Declarator<'a>>> {
        self.r_declarators_more(Vec::new())
    }
    pub fn r_declarators_more(&mut self, acc: Vec<Node<'a, Declarator<'a>>>) -> Option<NodeList<'a, Declarator<'a>>> {
        let d = self.r_declarator()?;
        if matches!(self.kind(), T::Comma) {
            self.skip();
            self.r_declarators_more(acc.pushed(d))
        } else {
            Some(self.lst(acc.pushed(d)))
        }
    }
    pub fn r_declarator(&mut self) -> Option<Node<'a, Declarator<'a>>> {
        let id = self.r_pattern()?;
        if matches!(self.kind(), T::OperatorAssign) {
            self.skip();
            let e = self.r_expr(0, 0)?;
            Some(self.nd(Declarator { id, init: Some(e) }))
        } else {
            Some(self.nd(Declarator { id, init: None }))
        }
    }
    pub fn r_label(&mut self) -> Option<Option<IdentifierNode<'a>>> {
        if self.asi() == Asi::NoSemicolon {
            let l = self.r_ident()?;
            let _ = self.r_semi()?;
            Some(Some(l))
        } else {
            let _ = self.r_semi()?;
            Some(None)
        }
    }
    pub fn r_return_value(&mut self) -> Option<Option<ExpressionNode<'a>>> {
        if self.asi() == Asi::NoSemicolon {
            let e = self.r_expr(-1, 0)?;
            let _ = self.r_semi()?;
            Some(Some(e))
        } else {
            let _ = self.r_semi()?;
            Some(None)
        }
    }
    pub fn r_if_statement(&mut self) -> Option<StatementNode<'a>> {
        if self.kind() == T::EndOfProgram { return None; }
        self.skip();
        if self.kind() != T::ParenOpen { return None; }
        self.skip();
        let e = self.r_expr(-1, 0)?;
        if self.kind() != T::ParenClose { return None; }
        self.skip();
        let a = self.r_statement()?;
        if matches!(self.kind(), T::Else) {
            self.skip();
            let b = self.r_statement()?;
            Some(self.nd(Statement::If(IfStatement { test: e, consequent: a, alternate: Some(b) })))
        } else {
            Some(self.nd(Statement::If(IfStatement { test: e, consequent: a, alternate: None })))
        }
    }
    pub fn r_do_statement(&mut self) -> Option<StatementNode<'a>> {
        if self.kind() == T::EndOfProgram { return None; }
        self.skip();
        let b = self.r_statement()?;
        if self.kind() != T::While { return None; }
        self.skip();
        if self.kind() != T::ParenOpen { return None; }
        self.skip();
        let e = self.r_expr(-1, 0)?;
        if self.kind() != T::ParenClose { return None; }
        self.skip();
        if matches!(self.kind(), T::Semicolon) {
            self.skip();
            Some(self.nd(Statement::Do(DoStatement { body: b, test: e })))
        } else {
            Some(self.nd(Statement::Do(DoStatement { body: b, test: e })))
        }
    }
    pub fn r_try_statement(&mut self) -> Option<StatementNode<'a>> {
        if self.kind() == T::EndOfProgram { return None; }
        self.skip();
        let b = self.r_block()?;
        if matches!(self.kind(), T::Catch) {
            self.skip();
            if self.kind() != T::ParenOpen { return None; }
            self.skip();
            let p = self.r_pattern()?;
            if self.kind() != T::ParenClose { return None; }
            self.skip();
            let c = self.r_block()?;
            let h = self.nd(CatchClause { param: p, body: c });
            if matches!(self.kind(), T::Finally) {
                self.skip();
                let f = self.r_block()?;
                Some(self.nd(Statement::Try(TryStatement { block: b, handler: Some(h), finalizer: Some(f) })))
            } else {
                Some(self.nd(Statement::Try(TryStatement { block: b, handler: Some(h), finalizer: None })))
            }
        } else if matches!(self.kind(), T::Finally) {
            self.skip();
            let f = self.r_block()?;
            Some(self.nd(Statement::Try(TryStatement { block: b, handler: None, finalizer: Some(f) })))
        } else {
            None
        }
    }
    pub fn r_for_init(&mut self, kind: DeclarationKind) -> Option<Node<'a, ForInit<'a>>> {
        if self.kind() == T::EndOfProgram { return None; }
        self.skip();
        let d = self.r_declarators()?;
        Some(self.nd(ForInit::Declaration(DeclarationStatement { kind, declarators: d })))
    }
    pub fn r_for_statement(&mut self) -> Option<StatementNode<'a>> {
        if self.kind() == T::EndOfProgram { return None; }
        self.skip();
        if self.kind() != T::ParenOpen { return None; }
        self.skip();
        if matches!(self.kind(), T::Semicolon) {
            self.skip();
            self.r_for_rest(None)
        } else {
            let x = self.r_for_first()?;
            self.r_for_head(x)
        }
    }
    pub fn r_for_first(&mut self) -> Option<Node<'a, ForInit<'a>>> {
        if matches!(self.kind(), T::DeclarationVar) {
            self.r_for_init(DeclarationKind::Var)
        } else if matches!(self.kind(), T::DeclarationLet) {
            self.r_for_init(DeclarationKind::Let)
        } else if matches!(self.kind(), T::DeclarationConst) {
            self.r_for_init(DeclarationKind::Const)
        } else {
            let x = self.r_expr(110, 0)?;
            if matches!(self.kind(), T::OperatorIn) {
                Some(self.nd(ForInit::Expression(x)))
            } else {
                let y = self.r_tail(x, -1)?;
                Some(self.nd(ForInit::Expression(y)))
            }
        }
    }
    pub fn r_for_head(&mut self, init: Node<'a, ForInit<'a>>) -> Option<StatementNode<'a>> {
        if matches!(self.kind(), T::OperatorIn) {
            self.skip();
            self.r_for_in(init)
        } else if matches!(self.kind(), T::Identifier) && self.text() == "of" {
            self.skip();
            self.r_for_of(init)
        } else {
            if self.kind() != T::Semicolon { return None; }
            self.skip();
            self.r_for_rest(Some(init))
        }
    }
    pub fn r_for_in(&mut self, left: Node<'a, ForInit<'a>>) -> Option<StatementNode<'a>> {
        let e = self.r_expr(-1, 0)?;
        if self.kind() != T::ParenClose { return None; }
        self.skip();
        let b = self.r_statement()?;
        Some(self.nd(Statement::ForIn(ForInStatement { left, right: e, body: b })))
    }
    pub fn r_for_of(&mut self, left: Node<'a, ForInit<'a>>) -> Option<StatementNode<'a>> {
        let e = self.r_expr(-1, 0)?;
        if self.kind() != T::ParenClose { return None; }
        self.skip();
        let b = self.r_statement()?;
        Some(self.nd(Statement::ForOf(ForOfStatement { left, right: e, body: b })))
    }
    pub fn r_for_rest(&mut self, init: Option<Node<'a, ForInit<'a>>>) -> Option<StatementNode<'a>> {
        let t = self.r_for_test()?;
        let u = self.r_for_update()?;
        let b = self.r_statement()?;
        Some(self.nd(Statement::For(ForStatement { init, test: t, update: u, body: b })))
    }
    pub fn r_for_test(&mut self) -> Option<Option<ExpressionNode<'a>>> {
        if matches!(self.kind(), T::Semicolon) {
            self.skip();
            Some(None)
        } else {
            let e = self.r_expr(-1, 0)?;
            if self.kind() != T::Semicolon { return None; }
            self.skip();
            Some(Some(e))
        }
    }
    pub fn r_for_update(&mut self) -> Option<Option<ExpressionNode<'a>>> {
        if matches!(self.kind(), T::ParenClose) {
            self.skip();
            Some(None)
        } else {
            let e = self.r_expr(-1, 0)?;
            if self.kind() != T::ParenClose { return None; }
            self.skip();
            Some(Some(e))
        }
    }
    pub fn r_block(&mut self) -> Option<BlockNode<'a, Statement<'a>>> {
        if self.kind() != T::BraceOpen { return None; }
        self.skip();
        let b = self.r_statements(Vec::new())?;
        if self.kind() != T::BraceClose { return None; }
        self.skip();
        Some(self.nd(Block { body: self.lst(b) }))
    }
    pub fn r_block_case(&mut self) -> Option<BlockNode<'a, SwitchCase<'a>>> {
        if self.kind() != T::BraceOpen { return None; }
        self.skip();
        let b = self.r_cases(Vec::new())?;
        if self.kind() != T::BraceClose { return None; }
        self.skip();
        Some(self.nd(Block { body: self.lst(b) }))
    }
    pub fn r_cases(&mut self, acc: Vec<Node<'a, SwitchCase<'a>>>) -> Option<Vec<Node<'a, SwitchCase<'a>>>> {
        if matches!(self.kind(), T::BraceClose | T::EndOfProgram) {
            Some(acc)
        } else {
            let x = self.r_case()?;
            self.r_cases(acc.pushed(x))
        }
    }
    pub fn r_case(&mut self) -> Option<Node<'a, SwitchCase<'a>>> {
        if matches!(self.kind(), T::Case) {
            self.skip();
            let e = self.r_expr(-1, 0)?;
            if self.kind() != T::Colon { return None; }
            self.skip();
            let l = self.r_case_body(Vec::new())?;
            Some(self.nd(SwitchCase { test: Some(e), consequent: self.lst(l) }))
        } else {
            if self.kind() != T::Default { return None; }
            self.skip();
            if self.kind() != T::Colon { return None; }
            self.skip();
            let l = self.r_case_body(Vec::new())?;
            Some(self.nd(SwitchCase { test: None, consequent: self.lst(l) }))
        }
    }
    pub fn r_case_body(&mut self, acc: Vec<StatementNode<'a>>) -> Option<Vec<StatementNode<'a>>> {
        if matches!(self.kind(), T::Case | T::Default | T::BraceClose | T::EndOfProgram) {
            Some(acc)
        } else {
            let x = self.r_statement()?;
            self.r_case_body(acc.pushed(x))
        }
    }
    pub fn r_import(&mut self) -> Option<StatementNode<'a>> {
        let name = self.text();
        if self.kind() == T::EndOfProgram { return None; }
        self.skip();
        if matches!(self.kind(), T::Comma | T::ParenOpen) {
            let r = self.r_tail(self.nd(Expression::Identifier(name)), -1)?;
            let _ = self.r_semi()?;
            Some(self.nd(Statement::Expression(r)))
        } else if matches!(self.kind(), T::LiteralString) {
            let source = unquote(self.text());
            self.skip();
            let _ = self.r_semi()?;
            Some(self.nd(Statement::Import(ImportDeclaration { specifiers: self.lst(Vec::new()), source })))
        } else if matches!(self.kind(), T::Identifier) {
            let d = self.nd(ForImportSpecifier::ImportDefaultSpecifier(ImportDefaultSpecifier { local: self.nd(self.text()) }));
            self.skip();
            if matches!(self.kind(), T::Comma) {
                self.skip();
                self.r_import_clause(Vec::new().pushed(d))
            } else {
                self.r_import_from(Vec::new().pushed(d))
            }
        } else {
            self.r_import_clause(Vec::new())
        }
    }
    pub fn r_import_clause(&mut self, acc: Vec<Node<'a, ForImportSpecifier<'a>>>) -> Option<StatementNode<'a>> {
        if matches!(self.kind(), T::BraceOpen) {
            self.skip();
            self.r_import_names(acc)
        } else if matches!(self.kind(), T::OperatorMultiplication) {
            self.skip();
            if !(matches!(self.kind(), T::Identifier) && self.text() == "as") { return None; }
            self.skip();
            let d = self.nd(ForImportSpecifier::ImportNamespaceSpecifier(ImportNamespaceSpecifier { local: self.nd(self.text()) }));
            if self.kind() != T::Identifier { return None; }
            self.skip();
            self.r_import_from(acc.pushed(d))
        } else {
            None
        }
    }
    pub fn r_import_names(&mut self, acc: Vec<Node<'a, ForImportSpecifier<'a>>>) -> Option<StatementNode<'a>> {
        let imported = self.nd(self.text());
        if self.kind() != T::Identifier { return None; }
        self.skip();
        if matches!(self.kind(), T::Identifier) && self.text() == "as" {
            self.skip();
            let d = self.nd(ForImportSpecifier::ImportSpecifier(ImportSpecifier { imported, local: self.nd(self.text()) }));
            if self.kind() != T::Identifier { return None; }
            self.skip();
            self.r_import_next(acc.pushed(d))
        } else {
            let d = self.nd(ForImportSpecifier::ImportSpecifier(ImportSpecifier { imported, local: imported }));
            self.r_import_next(acc.pushed(d))
        }
    }
    pub fn r_import_next(&mut self, acc: Vec<Node<'a, ForImportSpecifier<'a>>>) -> Option<StatementNode<'a>> {
        if matches!(self.kind(), T::Comma) {
            self.skip();
            self.r_import_names(acc)
        } else {
            if self.kind() != T::BraceClose { return None; }
            self.skip();
            self.r_import_from(acc)
        }
    }
    pub fn r_import_from(&mut self, acc: Vec<Node<'a, ForImportSpecifier<'a>>>) -> Option<StatementNode<'a>> {
        if !(matches!(self.kind(), T::Identifier) && self.text() == "from") { return None; }
        self.skip();
        let source = unquote(self.text());
        if self.kind() != T::LiteralString { return None; }
        self.skip();
        let _ = self.r_semi()?;
        Some(self.nd(Statement::Import(ImportDeclaration { specifiers: self.lst(acc), source })))
    }
    pub fn r_function_empty(&mut self) -> Option<Function<'a, EmptyName>> {
        if matches!(self.kind(), T::OperatorMultiplication) {
            self.skip();
            let generator = true;
            let name = EmptyName;
            let ps = self.r_params()?;
            let b = self.r_block()?;
            Some(Function { name, generator, params: self.lst(ps), body: b })
        } else {
            let generator = false;
            let name = EmptyName;
            let ps = self.r_params()?;
            let b = self.r_block()?;
            Some(Function { name, generator, params: self.lst(ps), body: b })
        }
    }
    pub fn r_function_optional(&mut self) -> Option<Function<'a, OptionalName<'a>>> {
        if matches!(self.kind(), T::OperatorMultiplication) {
            self.skip();
            let generator = true;
            let name = self.r_optional_name()?;
            let ps = self.r_params()?;
            let b = self.r_block()?;
            Some(Function { name, generator, params: self.lst(ps), body: b })
        } else {
            let generator = false;
            let name = self.r_optional_name()?;
            let ps = self.r_params()?;
            let b = self.r_block()?;
            Some(Function { name, generator, params: self.lst(ps), body: b })
        }
    }
    pub fn r_class_optional(&mut self) -> Option<Class<'a, OptionalName<'a>>> {
        let name = self.r_optional_name()?;
        if matches!(self.kind(), T::Extends) {
            self.skip();
            let e = self.r_expr(0, 0)?;
            let extends = Some(e);
            let b = self.r_block_member()?;
            Some(Class { name, extends, body: b })
        } else {
            let extends = None;
            let b = self.r_block_member()?;
            Some(Class { name, extends, body: b })
        }
    }
    pub fn r_function_mandatory(&mut self) -> Option<Function<'a, MandatoryName<'a>>> {
        if matches!(self.kind(), T::OperatorMultiplication) {
            self.skip();
            let generator = true;
            let name = self.r_mandatory_name()?;
            let ps = self.r_params()?;
            let b = self.r_block()?;
            Some(Function { name, generator, params: self.lst(ps), body: b })
        } else {
            let generator = false;
            let name = self.r_mandatory_name()?;
            let ps = self.r_params()?;
            let b = self.r_block()?;
            Some(Function { name, generator, params: self.lst(ps), body: b })
        }
    }
    pub fn r_class_mandatory(&mut self) -> Option<Class<'a, MandatoryName<'a>>> {
        let name = self.r_mandatory_name()?;
        if matches!(self.kind(), T::Extends) {
            self.skip();
            let e = self.r_expr(0, 0)?;
            let extends = Some(e);
            let b = self.r_block_member()?;
            Some(Class { name, extends, body: b })
        } else {
            let extends = None;
            let b = self.r_block_member()?;
            Some(Class { name, extends, body: b })
        }
    }
    pub fn r_optional_name(&mut self) -> Option<OptionalName<'a>> {
        if matches!(self.kind(), T::Identifier) {
            let n = self.text();
            self.skip();
            Some(OptionalName(Some(self.nd(n))))
        } else {
            Some(OptionalName(None))
        }
    }
    pub fn r_mandatory_name(&mut self) -> Option<MandatoryName<'a>> {
        let n = self.text();
        if self.kind() != T::Identifier { return None; }
        self.skip();
        Some(MandatoryName(self.nd(n)))
    }
    pub fn r_block_member(&mut self) -> Option<BlockNode<'a, ClassMember<'a>>> {
        if self.kind() != T::BraceOpen { return None; }
        self.skip();
        let b = self.r_members(Vec::new())?;
        if self.kind() != T::BraceClose { return None; }
        self.skip();
        Some(self.nd(Block { body: self.lst(b) }))
    }
    pub fn r_members(&mut self, acc: Vec<Node<'a, ClassMember<'a>>>) -> Option<Vec<Node<'a, ClassMember<'a>>>> {
        if matches!(self.kind(), T::BraceClose | T::EndOfProgram) {
            Some(acc)
        } else {
            let x = self.r_member()?;
            self.r_members(acc.pushed(x))
        }
    }
    pub fn r_member(&mut self) -> Option<Node<'a, ClassMember<'a>>> {
        if matches!(self.kind(), T::Static) {
            self.skip();
            let is_static = true;
            self.r_member_named(is_static)
        } else {
            let is_static = false;
            self.r_member_named(is_static)
        }
    }
    pub fn r_member_named(&mut self, is_static: bool) -> Option<Node<'a, ClassMember<'a>>> {
        if is_word(self.kind()) {
            let label = self.text();
            self.skip();
            if is_word(self.kind()) {
                let key = self.nd(PropertyKey::Literal(self.text()));
                self.skip();
                if label == "get" {
                    self.r_member_rest(is_static, MethodKind::Get, key)
                } else if label == "set" {
                    self.r_member_rest(is_static, MethodKind::Set, key)
                } else {
                    None
                }
            } else {
                let kind = if !is_static && label == "constructor" { MethodKind::Constructor } else { MethodKind::Method };
                self.r_member_rest(is_static, kind, self.nd(PropertyKey::Literal(label)))
            }
        } else if matches!(self.kind(), T::LiteralNumber) {
            let n = self.text();
            self.skip();
            self.r_member_rest(is_static, MethodKind::Method, self.nd(PropertyKey::Literal(n)))
        } else if matches!(self.kind(), T::LiteralBinary) {
            let n = self.text();
            self.skip();
            self.r_member_rest(is_static, MethodKind::Method, self.nd(PropertyKey::Binary(n)))
        } else if matches!(self.kind(), T::BracketOpen) {
            self.skip();
            let e = self.r_expr(-1, 0)?;
            if self.kind() != T::BracketClose { return None; }
            self.skip();
            self.r_member_rest(is_static, MethodKind::Method, self.nd(PropertyKey::Computed(e)))
        } else {
            None
        }
    }
    pub fn r_member_rest(&mut self, is_static: bool, kind: MethodKind, key: Node<'a, PropertyKey<'a>>) -> Option<Node<'a, ClassMember<'a>>> {
        if matches!(self.kind(), T::ParenOpen) {
            let v = self.r_function_empty()?;
            let m = self.nd(ClassMember::Method { is_static, key, kind, value: self.nd(v) });
            if matches!(self.kind(), T::Semicolon) {
                self.skip();
                Some(m)
            } else {
                Some(m)
            }
        } else {
            if self.kind() != T::OperatorAssign { return None; }
            self.skip();
            let e = self.r_expr(0, 0)?;
            let m = self.nd(ClassMember::Literal { is_static, key, value: e });
            if matches!(self.kind(), T::Semicolon) {
                self.skip();
                Some(m)
            } else {
                Some(m)
            }
        }
    }
    pub fn r_params(&mut self) -> Option<Vec<Node<'a, Pattern<'a>>>> {
        if self.kind() != T::ParenOpen { return None; }
        self.skip();
        self.r_params_next(Vec::new())
    }
    pub fn r_params_next(&mut self, acc: Vec<Node<'a, Pattern<'a>>>) -> Option<Vec<Node<'a, Pattern<'a>>>> {
        if matches!(self.kind(), T::ParenClose) {
            self.skip();
            Some(acc)
        } else if matches!(self.kind(), T::OperatorSpread) {
            let p = self.r_rest_element()?;
            Some(acc.pushed(p))
        } else {
            let p = self.r_param()?;
            self.r_params_rest(acc.pushed(p))
        }
    }
    pub fn r_params_rest(&mut self, acc: Vec<Node<'a, Pattern<'a>>>) -> Option<Vec<Node<'a, Pattern<'a>>>> {
        if matches!(self.kind(), T::Comma) {
            self.skip();
            self.r_params_next(acc)
        } else {
            if self.kind() != T::ParenClose { return None; }
            self.skip();
            Some(acc)
        }
    }
    pub fn r_rest_element(&mut self) -> Option<Node<'a, Pattern<'a>>> {
        if self.kind() == T::EndOfProgram { return None; }
        self.skip();
        let n = self.nd(self.text());
        if self.kind() != T::Identifier { return None; }
        self.skip();
        if self.kind() != T::ParenClose { return None; }
        self.skip();
        Some(self.nd(Pattern::RestElement { argument: n }))
    }
    pub fn r_param(&mut self) -> Option<Node<'a, Pattern<'a>>> {
        let p = self.r_pattern()?;
        self.r_pattern_assign(p)
    }
    pub fn r_pattern_assign(&mut self, left: Node<'a, Pattern<'a>>) -> Option<Node<'a, Pattern<'a>>> {
        if matches!(self.kind(), T::OperatorAssign) {
            self.skip();
            let e = self.r_expr(0, 0)?;
            Some(self.nd(Pattern::AssignmentPattern { left, right: e }))
        } else {
            Some(left)
        }
    }
    pub fn r_pattern(&mut self) -> Option<Node<'a, Pattern<'a>>> {
        if matches!(self.kind(), T::Identifier) {
            let n = self.text();
            self.skip();
            Some(self.nd(Pattern::Identifier(n)))
        } else if matches!(self.kind(), T::BracketOpen) {
            self.r_pattern_array()
        } else if matches!(self.kind(), T::BraceOpen) {
            self.r_pattern_object()
        } else {
            None
        }
    }
    pub fn r_pattern_array(&mut self) -> Option<Node<'a, Pattern<'a>>> {
        if self.kind() == T::EndOfProgram { return None; }
        self.skip();
        let l = self.r_pattern_items()?;
        if self.kind() != T::BracketClose { return None; }
        self.skip();
        Some(self.nd(Pattern::ArrayPattern { elements: self.lst(l) }))
    }
    pub fn r_pattern_object(&mut self) -> Option<Node<'a, Pattern<'a>>> {
        if self.kind() == T::EndOfProgram { return None; }
        self.skip();
        let l = self.r_properties()?;
        if self.kind() != T::BraceClose { return None; }
        self.skip();
        Some(self.nd(Pattern::ObjectPattern { properties: self.lst(l) }))
    }
    pub fn r_pattern_item(&mut self) -> Option<Node<'a, Pattern<'a>>> {
        if matches!(self.kind(), T::Comma | T::BracketClose) {
            Some(self.nd(Pattern::Void))
        } else {
            self.r_param()
        }
    }
    pub fn r_pattern_items(&mut self) -> Option<Vec<Node<'a, Pattern<'a>>>> {
        if matches!(self.kind(), T::BracketClose) {
            Some(Vec::new())
        } else {
            let x = self.r_pattern_item()?;
            self.r_pattern_items_rest(Vec::new().pushed(x))
        }
    }
    pub fn r_pattern_items_rest(&mut self, acc: Vec<Node<'a, Pattern<'a>>>) -> Option<Vec<Node<'a, Pattern<'a>>>> {
        if matches!(self.kind(), T::BracketClose) {
            Some(acc)
        } else {
            if self.kind() != T::Comma { return None; }
            self.skip();
            let x = self.r_pattern_item()?;
            self.r_pattern_items_rest(acc.pushed(x))
        }
    }
    pub fn r_array_items(&mut self) -> Option<Vec<ExpressionNode<'a>>> {
        if matches!(self.kind(), T::BracketClose) {
            Some(Vec::new())
        } else {
            let x = self.r_expr(0, 1)?;
            self.r_array_items_rest(Vec::new().pushed(x))
        }
    }
    pub fn r_array_items_rest(&mut self, acc: Vec<ExpressionNode<'a>>) -> Option<Vec<ExpressionNode<'a>>> {
        if matches!(self.kind(), T::BracketClose) {
            Some(acc)
        } else {
            if self.kind() != T::Comma { return None; }
            self.skip();
            let x = self.r_expr(0, 1)?;
            self.r_array_items_rest(acc.pushed(x))
        }
    }
    pub fn r_expr(&mut self, thr: i32, ctx: i32) -> Option<ExpressionNode<'a>> {
        let x = self.r_head(ctx)?;
        self.r_tail(x, thr)
    }
    pub fn r_tail(&mut self, left: ExpressionNode<'a>, thr: i32) -> Option<ExpressionNode<'a>> {
        if self.binds(thr) {
            let x = self.r_op(left)?;
            self.r_tail(x, thr)
        } else {
            Some(left)
        }
    }
    pub fn r_op(&mut self, left: ExpressionNode<'a>) -> Option<ExpressionNode<'a>> {
        if matches!(self.kind(), T::Comma) {
            self.skip();
            let x = self.r_expr(0, 0)?;
            let l = self.r_sequence(Vec::new().pushed(left).pushed(x))?;
            Some(self.nd(Expression::Sequence(SequenceExpression { body: self.lst(l) })))
        } else if matches!(self.kind(), T::OperatorConditional) {
            self.skip();
            let a = self.r_expr(0, 0)?;
            if self.kind() != T::Colon { return None; }
            self.skip();
            let b = self.r_expr(0, 0)?;
            Some(self.nd(Expression::Conditional(ConditionalExpression { test: left, consequent: a, alternate: b })))
        } else if matches!(self.kind(), T::OperatorFatArrow) {
            self.skip();
            let a = self.r_arrow(arrow_params(left))?;
            Some(self.nd(Expression::Arrow(a)))
        } else if matches!(self.kind(), T::Accessor) {
            let name = self.inner();
            self.skip();
            Some(self.nd(Expression::Member(MemberExpression { object: left, property: self.nd(name) })))
        } else if matches!(self.kind(), T::ParenOpen) {
            self.skip();
            let l = self.r_arguments()?;
            if self.kind() != T::ParenClose { return None; }
            self.skip();
            Some(self.nd(Expression::Call(CallExpression { callee: left, arguments: self.lst(l) })))
        } else if matches!(self.kind(), T::BracketOpen) {
            self.skip();
            let e = self.r_expr(-1, 0)?;
            if self.kind() != T::BracketClose { return None; }
            self.skip();
            Some(self.nd(Expression::ComputedMember(ComputedMemberExpression { object: left, property: e })))
        } else if matches!(self.kind(), T::TemplateOpen | T::TemplateClosed) {
            let q = self.r_template()?;
            Some(self.nd(Expression::TaggedTemplate(TaggedTemplateExpression { tag: left, quasi: self.nd(q) })))
        } else if matches!(self.kind(), T::OperatorIncrement | T::OperatorDecrement) {
            let op = operator(self.kind());
            if !(lvalue(&left.item)) { return None; }
            self.skip();
            Some(self.nd(Expression::Postfix(PostfixExpression { operator: op, operand: left })))
        } else if is_assign(self.kind()) {
            let op = operator(self.kind());
            if !(lvalue(&left.item)) { return None; }
            self.skip();
            let e = self.r_expr(0, 0)?;
            Some(self.nd(Expression::Binary(BinaryExpression { operator: op, left, right: e })))
        } else if is_binary(self.kind()) {
            let op = operator(self.kind());
            let thr = if self.kind() == T::OperatorExponent { 140 } else { level(self.kind()) };
            self.skip();
            let e = self.r_expr(thr, 0)?;
            Some(self.nd(Expression::Binary(BinaryExpression { operator: op, left, right: e })))
        } else {
            None
        }
    }
    pub fn r_sequence(&mut self, acc: Vec<ExpressionNode<'a>>) -> Option<Vec<ExpressionNode<'a>>> {
        if matches!(self.kind(), T::Comma) {
            self.skip();
            let x = self.r_expr(0, 0)?;
            self.r_sequence(acc.pushed(x))
        } else {
            Some(acc)
        }
    }
    pub fn r_arguments(&mut self) -> Option<Vec<ExpressionNode<'a>>> {
        if matches!(self.kind(), T::ParenClose) {
            Some(Vec::new())
        } else {
            let x = self.r_expr(0, 2)?;
            self.r_arguments_rest(Vec::new().pushed(x))
        }
    }
    pub fn r_arguments_rest(&mut self, acc: Vec<ExpressionNode<'a>>) -> Option<Vec<ExpressionNode<'a>>> {
        if matches!(self.kind(), T::ParenClose) {
            Some(acc)
        } else {
            if self.kind() != T::Comma { return None; }
            self.skip();
            if matches!(self.kind(), T::ParenClose) {
                Some(acc)
            } else {
                let x = self.r_expr(0, 2)?;
                self.r_arguments_rest(acc.pushed(x))
            }
        }
    }
    pub fn r_arrow(&mut self, params: Vec<ExpressionNode<'a>>) -> Option<ArrowExpression<'a>> {
        if !(self.patterns_of(&params).is_some()) { return None; }
        let ps = self.lst(self.patterns_of(&params)?);
        if matches!(self.kind(), T::BraceOpen) {
            let b = self.r_block()?;
            Some(ArrowExpression { params: ps, body: ArrowBody::Block(b) })
        } else {
            let e = self.r_expr(0, 0)?;
            Some(ArrowExpression { params: ps, body: ArrowBody::Expression(e) })
        }
    }
    pub fn r_head(&mut self, ctx: i32) -> Option<ExpressionNode<'a>> {
        if matches!(self.kind(), T::Identifier) {
            let n = self.text();
            self.skip();
            Some(self.nd(Expression::Identifier(n)))
        } else if matches!(self.kind(), T::ParenOpen) {
            self.r_paren()
        } else if matches!(self.kind(), T::BracketOpen) {
            self.skip();
            let l = self.r_array_items()?;
            if self.kind() != T::BracketClose { return None; }
            self.skip();
            Some(self.nd(Expression::Array(ArrayExpression { body: self.lst(l) })))
        } else if matches!(self.kind(), T::BraceOpen) {
            self.skip();
            let l = self.r_properties()?;
            if self.kind() != T::BraceClose { return None; }
            self.skip();
            Some(self.nd(Expression::Object(ObjectExpression { body: self.lst(l) })))
        } else if matches!(self.kind(), T::OperatorNew) {
            self.skip();
            self.r_new()
        } else if is_unary(self.kind()) {
            let op = operator(self.kind());
            self.skip();
            let e = self.r_expr(150, 0)?;
            Some(self.nd(Expression::Prefix(PrefixExpression { operator: op, operand: e })))
        } else if matches!(self.kind(), T::OperatorDivision) {
            self.in_regex();
            let v = self.text();
            if self.kind() != T::LiteralRegEx { return None; }
            self.skip();
            Some(self.nd(Expression::Literal(Literal::RegEx(v))))
        } else if matches!(self.kind(), T::Function) {
            self.skip();
            let f = self.r_function_optional()?;
            Some(self.nd(Expression::Function(f)))
        } else if matches!(self.kind(), T::Class) {
            self.skip();
            let f = self.r_class_optional()?;
            Some(self.nd(Expression::Class(f)))
        } else if matches!(self.kind(), T::This) {
            self.skip();
            Some(self.nd(Expression::This(ThisExpression)))
        } else if matches!(self.kind(), T::LiteralTrue) {
            self.skip();
            Some(self.nd(Expression::Literal(Literal::True)))
        } else if matches!(self.kind(), T::LiteralFalse) {
            self.skip();
            Some(self.nd(Expression::Literal(Literal::False)))
        } else if matches!(self.kind(), T::LiteralNull) {
            self.skip();
            Some(self.nd(Expression::Literal(Literal::Null)))
        } else if matches!(self.kind(), T::LiteralUndefined) {
            self.skip();
            Some(self.nd(Expression::Literal(Literal::Undefined)))
        } else if matches!(self.kind(), T::LiteralString) {
            let n = self.text();
            self.skip();
            Some(self.nd(Expression::Literal(Literal::String(n))))
        } else if matches!(self.kind(), T::LiteralNumber) {
            let n = self.text();
            self.skip();
            Some(self.nd(Expression::Literal(Literal::Number(n))))
        } else if matches!(self.kind(), T::LiteralBinary) {
            let n = self.text();
            self.skip();
            Some(self.nd(Expression::Literal(Literal::Binary(n))))
        } else if matches!(self.kind(), T::TemplateOpen | T::TemplateClosed) {
            let q = self.r_template()?;
            Some(self.nd(Expression::Template(q)))
        } else if matches!(self.kind(), T::OperatorSpread) && ctx != 0 {
            self.skip();
            let e = self.r_expr(0, 0)?;
            Some(self.nd(Expression::Spread(SpreadExpression { argument: e })))
        } else if matches!(self.kind(), T::Comma | T::BracketClose) && ctx == 1 {
            Some(self.nd(Expression::Void))
        } else {
            None
        }
    }
    pub fn r_paren(&mut self) -> Option<ExpressionNode<'a>> {
        if self.kind() == T::EndOfProgram { return None; }
        self.skip();
        if matches!(self.kind(), T::ParenClose) {
            self.skip();
            if self.kind() != T::OperatorFatArrow { return None; }
            self.skip();
            let a = self.r_arrow(Vec::new())?;
            Some(self.nd(Expression::Arrow(a)))
        } else {
            let e = self.r_expr(-1, 0)?;
            if self.kind() != T::ParenClose { return None; }
            self.skip();
            Some(e)
        }
    }
    pub fn r_new(&mut self) -> Option<ExpressionNode<'a>> {
        if matches!(self.kind(), T::Accessor) {
            let n = self.inner();
            if !(n == "target") { return None; }
            self.skip();
            Some(self.nd(Expression::MetaProperty(MetaPropertyExpression { meta: self.nd("new"), property: self.nd(n) })))
        } else {
            let c = self.r_expr(175, 0)?;
            let o = self.r_new_arguments(c)?;
            Some(self.nd(Expression::Prefix(PrefixExpression { operator: OperatorKind::New, operand: o })))
        }
    }
    pub fn r_new_arguments(&mut self, callee: ExpressionNode<'a>) -> Option<ExpressionNode<'a>> {
        if matches!(self.kind(), T::ParenOpen) {
            self.skip();
            let l = self.r_arguments()?;
            if self.kind() != T::ParenClose { return None; }
            self.skip();
            Some(self.nd(Expression::Call(CallExpression { callee, arguments: self.lst(l) })))
        } else if matches!(callee.item, Expression::Call(_)) {
            Some(self.nd(Expression::Call(CallExpression { callee, arguments: self.lst(Vec::new()) })))
        } else {
            Some(callee)
        }
    }
    pub fn r_properties(&mut self) -> Option<Vec<Node<'a, Property<'a>>>> {
        if matches!(self.kind(), T::BraceClose) {
            Some(Vec::new())
        } else {
            let x = self.r_property()?;
            self.r_properties_rest(Vec::new().pushed(x))
        }
    }
    pub fn r_properties_rest(&mut self, acc: Vec<Node<'a, Property<'a>>>) -> Option<Vec<Node<'a, Property<'a>>>> {
        if matches!(self.kind(), T::BraceClose) {
            Some(acc)
        } else {
            if self.kind() != T::Comma { return None; }
            self.skip();
            if matches!(self.kind(), T::BraceClose) {
                Some(acc)
            } else {
                let x = self.r_property()?;
                self.r_properties_rest(acc.pushed(x))
            }
        }
    }
    pub fn r_property(&mut self) -> Option<Node<'a, Property<'a>>> {
        if is_word(self.kind()) {
            let n = self.text();
            self.skip();
            if matches!(self.kind(), T::Colon | T::ParenOpen) {
                self.r_property_value(self.nd(PropertyKey::Literal(n)))
            } else {
                Some(self.nd(Property::Shorthand(n)))
            }
        } else if matches!(self.kind(), T::OperatorSpread) {
            self.skip();
            let e = self.r_expr(0, 0)?;
            Some(self.nd(Property::Spread { argument: e }))
        } else if matches!(self.kind(), T::LiteralString | T::LiteralNumber) {
            let n = self.text();
            self.skip();
            self.r_property_value(self.nd(PropertyKey::Literal(n)))
        } else if matches!(self.kind(), T::LiteralBinary) {
            let n = self.text();
            self.skip();
            self.r_property_value(self.nd(PropertyKey::Binary(n)))
        } else if matches!(self.kind(), T::BracketOpen) {
            self.skip();
            let e = self.r_expr(-1, 0)?;
            if self.kind() != T::BracketClose { return None; }
            self.skip();
            self.r_property_value(self.nd(PropertyKey::Computed(e)))
        } else {
            None
        }
    }
    pub fn r_property_value(&mut self, key: Node<'a, PropertyKey<'a>>) -> Option<Node<'a, Property<'a>>> {
        if matches!(self.kind(), T::Colon) {
            self.skip();
            let e = self.r_expr(0, 0)?;
            Some(self.nd(Property::Literal { key, value: e }))
        } else if matches!(self.kind(), T::ParenOpen) {
            let f = self.r_function_empty()?;
            Some(self.nd(Property::Method { key, value: self.nd(f) }))
        } else {
            None
        }
    }
    pub fn r_template(&mut self) -> Option<TemplateLiteral<'a>> {
        if matches!(self.kind(), T::TemplateClosed) {
            let q = self.nd(self.inner());
            self.skip();
            Some(TemplateLiteral { expressions: self.lst(Vec::new()), quasis: self.lst(Vec::new().pushed(q)) })
        } else {
            self.r_template_parts(Vec::new(), Vec::new())
        }
    }
    pub fn r_template_parts(&mut self, qs: Vec<Node<'a, &'a str>>, es: Vec<ExpressionNode<'a>>) -> Option<TemplateLiteral<'a>> {
        let q = self.nd(self.inner());
        if matches!(self.kind(), T::TemplateClosed) {
            self.skip();
            Some(TemplateLiteral { expressions: self.lst(es), quasis: self.lst(qs.pushed(q)) })
        } else {
            if self.kind() != T::TemplateOpen { return None; }
            self.skip();
            let e = self.r_expr(-1, 0)?;
            if !(matches!(self.kind(), T::BraceClose)) { return None; }
            self.in_quasi();
            self.r_template_parts(qs.pushed(q), es.pushed(e))
        }
    }
}
