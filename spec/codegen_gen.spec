//! written by gen_codegen.py
@opt trait ToCode spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> ; spec fn first ( & self ) -> bool ; spec fn fin ( & self , a : Mon , b : Mon ) -> bool ;
@opt trait VxOpen spec fn oe ( & self ) -> bool ;
@fn VxOpen::is_open_ended -> r
    ensures [G01,G02] r == self.oe()
@fn ToCode::to_code
    requires old($1).wf()
    requires [G02] old($1).mon().pend ==> self.first()
    ensures final($1).wf(), final($1).dep() == old($1).dep()
    ensures [G01] final($1).out() == self.pr(old($1).out())
    ensures [G02] self.fin(old($1).mon(), final($1).mon())
@opt impl ToCode<G>@Expression open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_expr(*self, t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend }
@opt impl VxOpen@Expression open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@Literal open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_lit(*self, t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend }
@opt impl VxOpen@Literal open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@OperatorKind open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { wr(t, spelling(*self)) } open spec fn first ( & self ) -> bool { !(cat(*self) is Word) } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend && (cat(*self) is Word || pun(b.last)) }
@opt impl VxOpen@OperatorKind open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@PropertyKey open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_key(*self, t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend }
@opt impl VxOpen@PropertyKey open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@Property open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_prop(*self, t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend }
@opt impl VxOpen@Property open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@Pattern open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_pat(*self, t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend }
@opt impl VxOpen@Pattern open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@TemplateLiteral open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_tpl(*self, t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend }
@opt impl VxOpen@TemplateLiteral open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@ArrowBody open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_arrow(*self, t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend }
@opt impl VxOpen@ArrowBody open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@Statement open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_stmt(*self, t) } open spec fn first ( & self ) -> bool { *self is Block } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend && (open_ended(*self) || pun(b.last) || (*self is Empty && b == a)) }
@opt impl VxOpen@Statement open spec fn oe ( & self ) -> bool { open_ended(*self) }
@opt impl ToCode<G>@DeclarationKind open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { (if *self is Var { t.push(Out::B(118u8)).push(Out::B(97u8)).push(Out::B(114u8)).push(Out::B(32u8)) } else if *self is Let { t.push(Out::B(108u8)).push(Out::B(101u8)).push(Out::B(116u8)).push(Out::B(32u8)) } else { t.push(Out::B(99u8)).push(Out::B(111u8)).push(Out::B(110u8)).push(Out::B(115u8)).push(Out::B(116u8)).push(Out::B(32u8)) }) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend }
@opt impl VxOpen@DeclarationKind open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@Declarator open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_declr(*self, t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend }
@opt impl VxOpen@Declarator open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@DeclarationStatement open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_declaration(*self, t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend }
@opt impl VxOpen@DeclarationStatement open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@ForInit open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_forinit(*self, t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend }
@opt impl VxOpen@ForInit open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@SwitchCase open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_case(*self, t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { case_open(*self) || (!b.pend && pun(b.last)) }
@opt impl VxOpen@SwitchCase open spec fn oe ( & self ) -> bool { case_open(*self) }
@opt impl ToCode<G>@ForImportSpecifier open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_imp(*self, t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend }
@opt impl VxOpen@ForImportSpecifier open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@ImportDeclaration open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_stmt(Statement::Import(*self), t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend }
@opt impl VxOpen@ImportDeclaration open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@EmptyName open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { t } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { b == a }
@opt impl VxOpen@EmptyName open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@MandatoryName open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { self.pn(t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend }
@opt impl VxOpen@MandatoryName open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@OptionalName open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { self.pn(t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { true }
@opt impl VxOpen@OptionalName open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@ClassMember open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_member(*self, t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend && pun(b.last) }
@opt impl VxOpen@ClassMember open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@&str open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { wr(t, sb(*self)) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend }
@opt impl VxOpen@&str open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@Block<Statement> open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_block(*self, t) } open spec fn first ( & self ) -> bool { true } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend && b.last == 125 }
@opt impl VxOpen@Block<Statement> open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@Block<ClassMember> open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_mblock(*self, t) } open spec fn first ( & self ) -> bool { true } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend && b.last == 125 }
@opt impl VxOpen@Block<ClassMember> open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@Block<SwitchCase> open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_cblock(*self, t) } open spec fn first ( & self ) -> bool { true } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend && b.last == 125 }
@opt impl VxOpen@Block<SwitchCase> open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@Function<EmptyName> open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_func(*self, t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend && b.last == 125 }
@opt impl VxOpen@Function<EmptyName> open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@Function<OptionalName> open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_func(*self, t.push(Out::B(102u8)).push(Out::B(117u8)).push(Out::B(110u8)).push(Out::B(99u8)).push(Out::B(116u8)).push(Out::B(105u8)).push(Out::B(111u8)).push(Out::B(110u8))) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend && b.last == 125 }
@opt impl VxOpen@Function<OptionalName> open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@Class<OptionalName> open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_class(*self, t.push(Out::B(99u8)).push(Out::B(108u8)).push(Out::B(97u8)).push(Out::B(115u8)).push(Out::B(115u8))) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend && b.last == 125 }
@opt impl VxOpen@Class<OptionalName> open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@Function<MandatoryName> open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_func(*self, t.push(Out::B(102u8)).push(Out::B(117u8)).push(Out::B(110u8)).push(Out::B(99u8)).push(Out::B(116u8)).push(Out::B(105u8)).push(Out::B(111u8)).push(Out::B(110u8))) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend && b.last == 125 }
@opt impl VxOpen@Function<MandatoryName> open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@Class<MandatoryName> open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_class(*self, t.push(Out::B(99u8)).push(Out::B(108u8)).push(Out::B(97u8)).push(Out::B(115u8)).push(Out::B(115u8))) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend && b.last == 125 }
@opt impl VxOpen@Class<MandatoryName> open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@SequenceExpression open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_expr(Expression::Sequence(*self), t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend }
@opt impl VxOpen@SequenceExpression open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@ArrayExpression open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_expr(Expression::Array(*self), t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend }
@opt impl VxOpen@ArrayExpression open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@MemberExpression open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_expr(Expression::Member(*self), t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend }
@opt impl VxOpen@MemberExpression open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@ComputedMemberExpression open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_expr(Expression::ComputedMember(*self), t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend }
@opt impl VxOpen@ComputedMemberExpression open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@MetaPropertyExpression open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_expr(Expression::MetaProperty(*self), t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend }
@opt impl VxOpen@MetaPropertyExpression open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@CallExpression open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_expr(Expression::Call(*self), t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend }
@opt impl VxOpen@CallExpression open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@BinaryExpression open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_expr(Expression::Binary(*self), t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend }
@opt impl VxOpen@BinaryExpression open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@PrefixExpression open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_expr(Expression::Prefix(*self), t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend }
@opt impl VxOpen@PrefixExpression open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@PostfixExpression open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_expr(Expression::Postfix(*self), t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend }
@opt impl VxOpen@PostfixExpression open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@ConditionalExpression open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_expr(Expression::Conditional(*self), t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend }
@opt impl VxOpen@ConditionalExpression open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@TaggedTemplateExpression open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_expr(Expression::TaggedTemplate(*self), t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend }
@opt impl VxOpen@TaggedTemplateExpression open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@SpreadExpression open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_expr(Expression::Spread(*self), t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend }
@opt impl VxOpen@SpreadExpression open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@ArrowExpression open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_expr(Expression::Arrow(*self), t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend }
@opt impl VxOpen@ArrowExpression open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@ObjectExpression open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_expr(Expression::Object(*self), t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend }
@opt impl VxOpen@ObjectExpression open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@ReturnStatement open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_stmt(Statement::Return(*self), t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend && pun(b.last) }
@opt impl VxOpen@ReturnStatement open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@BreakStatement open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_stmt(Statement::Break(*self), t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend && pun(b.last) }
@opt impl VxOpen@BreakStatement open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@ContinueStatement open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_stmt(Statement::Continue(*self), t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend && pun(b.last) }
@opt impl VxOpen@ContinueStatement open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@ThrowStatement open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_stmt(Statement::Throw(*self), t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend && pun(b.last) }
@opt impl VxOpen@ThrowStatement open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@IfStatement open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_stmt(Statement::If(*self), t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend && (open_ended(Statement::If(*self)) || pun(b.last)) }
@opt impl VxOpen@IfStatement open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@WhileStatement open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_stmt(Statement::While(*self), t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend && (open_ended(Statement::While(*self)) || pun(b.last)) }
@opt impl VxOpen@WhileStatement open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@DoStatement open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_stmt(Statement::Do(*self), t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend && (open_ended(Statement::Do(*self)) || pun(b.last)) }
@opt impl VxOpen@DoStatement open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@ForStatement open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_stmt(Statement::For(*self), t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend && (open_ended(Statement::For(*self)) || pun(b.last)) }
@opt impl VxOpen@ForStatement open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@ForInStatement open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_stmt(Statement::ForIn(*self), t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend && (open_ended(Statement::ForIn(*self)) || pun(b.last)) }
@opt impl VxOpen@ForInStatement open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@ForOfStatement open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_stmt(Statement::ForOf(*self), t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend && (open_ended(Statement::ForOf(*self)) || pun(b.last)) }
@opt impl VxOpen@ForOfStatement open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@TryStatement open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_stmt(Statement::Try(*self), t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend && (open_ended(Statement::Try(*self)) || pun(b.last)) }
@opt impl VxOpen@TryStatement open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@LabeledStatement open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_stmt(Statement::Labeled(*self), t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend && (open_ended(Statement::Labeled(*self)) || pun(b.last)) }
@opt impl VxOpen@LabeledStatement open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@SwitchStatement open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_stmt(Statement::Switch(*self), t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend && (open_ended(Statement::Switch(*self)) || pun(b.last)) }
@opt impl VxOpen@SwitchStatement open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@Node<Expression> open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_expr(self.item, t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend }
@opt impl VxOpen@Node<Expression> open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@Node<Statement> open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_stmt(self.item, t) } open spec fn first ( & self ) -> bool { self.item is Block } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend && (open_ended(self.item) || pun(b.last) || (self.item is Empty && b == a)) }
@opt impl VxOpen@Node<Statement> open spec fn oe ( & self ) -> bool { open_ended(self.item) }
@opt impl ToCode<G>@Node<Pattern> open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_pat(self.item, t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend }
@opt impl VxOpen@Node<Pattern> open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@Node<Property> open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_prop(self.item, t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend }
@opt impl VxOpen@Node<Property> open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@Node<PropertyKey> open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_key(self.item, t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend }
@opt impl VxOpen@Node<PropertyKey> open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@Node<ClassMember> open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_member(self.item, t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend && pun(b.last) }
@opt impl VxOpen@Node<ClassMember> open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@Node<Declarator> open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_declr(self.item, t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend }
@opt impl VxOpen@Node<Declarator> open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@Node<SwitchCase> open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_case(self.item, t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { case_open(self.item) || (!b.pend && pun(b.last)) }
@opt impl VxOpen@Node<SwitchCase> open spec fn oe ( & self ) -> bool { case_open(self.item) }
@opt impl ToCode<G>@Node<ForInit> open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_forinit(self.item, t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend }
@opt impl VxOpen@Node<ForInit> open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@Node<ForImportSpecifier> open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_imp(self.item, t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend }
@opt impl VxOpen@Node<ForImportSpecifier> open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@Node<Function<EmptyName>> open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_func(self.item, t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend && b.last == 125 }
@opt impl VxOpen@Node<Function<EmptyName>> open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@Node<TemplateLiteral> open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_tpl(self.item, t) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend }
@opt impl VxOpen@Node<TemplateLiteral> open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@Node<Block<Statement>> open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_block(self.item, t) } open spec fn first ( & self ) -> bool { true } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend && b.last == 125 }
@opt impl VxOpen@Node<Block<Statement>> open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@Node<Block<ClassMember>> open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_mblock(self.item, t) } open spec fn first ( & self ) -> bool { true } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend && b.last == 125 }
@opt impl VxOpen@Node<Block<ClassMember>> open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@Node<Block<SwitchCase>> open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { pr_cblock(self.item, t) } open spec fn first ( & self ) -> bool { true } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend && b.last == 125 }
@opt impl VxOpen@Node<Block<SwitchCase>> open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@Node<&str> open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { wr(t, sb(self.item)) } open spec fn first ( & self ) -> bool { false } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { !b.pend }
@opt impl VxOpen@Node<&str> open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@Option<Node<ForInit>> open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { (match *self { Some(y) => pr_forinit(y.item, t), None => t }) } open spec fn first ( & self ) -> bool { (match *self { Some(y) => false, None => false }) } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { (match *self { Some(y) => !b.pend, None => b == a }) }
@opt impl VxOpen@Option<Node<ForInit>> open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@Option<ExpressionNode> open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { (match *self { Some(y) => pr_expr(y.item, t), None => t }) } open spec fn first ( & self ) -> bool { (match *self { Some(y) => false, None => false }) } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { (match *self { Some(y) => !b.pend, None => b == a }) }
@opt impl VxOpen@Option<ExpressionNode> open spec fn oe ( & self ) -> bool { false }
@opt impl ToCode<G>@Option<StatementNode> open spec fn pr ( & self , t : Seq<Out> ) -> Seq<Out> { (match *self { Some(y) => pr_stmt(y.item, t), None => t }) } open spec fn first ( & self ) -> bool { (match *self { Some(y) => y.item is Block, None => false }) } open spec fn fin ( & self , a : Mon , b : Mon ) -> bool { (match *self { Some(y) => !b.pend && (open_ended(y.item) || pun(b.last) || (y.item is Empty && b == a)), None => b == a }) }
@opt impl VxOpen@Option<StatementNode> open spec fn oe ( & self ) -> bool { (match *self { Some(y) => open_ended(y.item), None => false }) }
@mono ToCode<G>@Node<T> => T = Expression<'ast>; Statement<'ast>; Pattern<'ast>; Property<'ast>; PropertyKey<'ast>; ClassMember<'ast>; Declarator<'ast>; SwitchCase<'ast>; ForInit<'ast>; ForImportSpecifier<'ast>; Function<'ast, EmptyName>; TemplateLiteral<'ast>; Block<'ast, Statement<'ast>>; Block<'ast, ClassMember<'ast>>; Block<'ast, SwitchCase<'ast>>; &'ast str
@mono VxOpen@Node<T> => T = Expression<'ast>; Statement<'ast>; Pattern<'ast>; Property<'ast>; PropertyKey<'ast>; ClassMember<'ast>; Declarator<'ast>; SwitchCase<'ast>; ForInit<'ast>; ForImportSpecifier<'ast>; Function<'ast, EmptyName>; TemplateLiteral<'ast>; Block<'ast, Statement<'ast>>; Block<'ast, ClassMember<'ast>>; Block<'ast, SwitchCase<'ast>>; &'ast str
@mono ToCode<G>@Option<T> => T = Node<'ast, ForInit<'ast>>; ExpressionNode<'ast>; StatementNode<'ast>
@mono VxOpen@Option<T> => T = Node<'ast, ForInit<'ast>>; ExpressionNode<'ast>; StatementNode<'ast>
@mono ToCode<G>@Block<T> => T = Statement<'ast>; ClassMember<'ast>; SwitchCase<'ast>
@mono ToCode<G>@Function<N> => N = EmptyName; OptionalName<'ast>; MandatoryName<'ast>
@mono ToCode<G>@Class<N> => N = OptionalName<'ast>; MandatoryName<'ast>
@mono VxOpen@Block<T> => T = Statement<'ast>; ClassMember<'ast>; SwitchCase<'ast>
@mono VxOpen@Function<N> => N = EmptyName; OptionalName<'ast>; MandatoryName<'ast>
@mono VxOpen@Class<N> => N = OptionalName<'ast>; MandatoryName<'ast>
@lift Generator::write_list on List<'ast, Node<'ast, T>> T = Pattern<'ast>; Property<'ast>; Declarator<'ast>; ForImportSpecifier<'ast>
@lift Generator::write_block on List<'ast, Node<'ast, T>> T = Statement<'ast>; ClassMember<'ast>; SwitchCase<'ast>
@opt trait Vx_write_list spec fn pl ( & self , t : Seq<Out> ) -> Seq<Out> ;
@opt trait Vx_write_block spec fn pl ( & self , t : Seq<Out> ) -> Seq<Out> ; spec fn lfin ( & self , a : Mon , b : Mon ) -> bool ;
@fn Vx_write_list::write_list
    requires old($1).wf()
    requires [G02] !old($1).mon().pend
    ensures final($1).wf(), final($1).dep() == old($1).dep()
    ensures [G01] final($1).out() == self.pl(old($1).out())
    ensures [G02] !final($1).mon().pend

@fn Vx_write_block::write_block
    requires old($1).wf(), opened(old($1).out())
    requires [G02] !old($1).mon().pend, pun(old($1).mon().last)
    ensures final($1).wf(), final($1).dep() == old($1).dep()
    ensures [G01] final($1).out() == self.pl(old($1).out())
    ensures [G02] self.lfin(old($1).mon(), final($1).mon())

@opt impl Vx_write_list<G>@List<Node<Pattern>> open spec fn pl ( & self , t : Seq<Out> ) -> Seq<Out> { pr_pats(*self, t) }
@fn Vx_write_list<G>@List<Node<Pattern>>::write_list
    loop 0:
    invariant $1.wf()
    invariant [G01] pr_pats_t(vx_it0, $1.out()) == pr_pats(*self, old($1).out())
    invariant $1.dep() == old($1).dep()
    invariant [G02] !$1.mon().pend
@opt impl Vx_write_list<G>@List<Node<Property>> open spec fn pl ( & self , t : Seq<Out> ) -> Seq<Out> { pr_bprops(*self, t) }
@fn Vx_write_list<G>@List<Node<Property>>::write_list
    loop 0:
    invariant $1.wf()
    invariant [G01] pr_bprops_t(vx_it0, $1.out()) == pr_bprops(*self, old($1).out())
    invariant $1.dep() == old($1).dep()
    invariant [G02] !$1.mon().pend
@opt impl Vx_write_list<G>@List<Node<Declarator>> open spec fn pl ( & self , t : Seq<Out> ) -> Seq<Out> { pr_decls(*self, t) }
@fn Vx_write_list<G>@List<Node<Declarator>>::write_list
    loop 0:
    invariant $1.wf()
    invariant [G01] pr_decls_t(vx_it0, $1.out()) == pr_decls(*self, old($1).out())
    invariant $1.dep() == old($1).dep()
    invariant [G02] !$1.mon().pend
@opt impl Vx_write_list<G>@List<Node<ForImportSpecifier>> open spec fn pl ( & self , t : Seq<Out> ) -> Seq<Out> { pr_imps(*self, t) }
@fn Vx_write_list<G>@List<Node<ForImportSpecifier>>::write_list
    loop 0:
    invariant $1.wf()
    invariant [G01] pr_imps_t(vx_it0, $1.out()) == pr_imps(*self, old($1).out())
    invariant $1.dep() == old($1).dep()
    invariant [G02] !$1.mon().pend
@opt impl Vx_write_block<G>@List<Node<Statement>> open spec fn pl ( & self , t : Seq<Out> ) -> Seq<Out> { pr_lines(*self, t) } open spec fn lfin ( & self , a : Mon , b : Mon ) -> bool { (*self is Nil ==> b == a) && (!(*self is Nil) ==> last_open_ended(*self) || (!b.pend && pun(b.last))) }
@fn Vx_write_block<G>@List<Node<Statement>>::write_block
    loop 0:
    invariant $1.wf(), !(*self is Nil)
    invariant [G01] pr_lines_t(vx_it0, *previous, $1.out()).push(Out::De).push(Out::Line) == pr_lines(*self, old($1).out())
    invariant $1.dep() == old($1).dep() + 1
    invariant [G02] open_ended(previous.item) || (!$1.mon().pend && pun($1.mon().last))
    invariant [G02] (if vx_it0 is Nil { open_ended(previous.item) } else { last_open_ended(vx_it0) }) == last_open_ended(*self)
@opt impl Vx_write_block<G>@List<Node<ClassMember>> open spec fn pl ( & self , t : Seq<Out> ) -> Seq<Out> { pr_mlines(*self, t) } open spec fn lfin ( & self , a : Mon , b : Mon ) -> bool { (*self is Nil ==> b == a) && (!(*self is Nil) ==> last_never_open(*self) || (!b.pend && pun(b.last))) }
@fn Vx_write_block<G>@List<Node<ClassMember>>::write_block
    loop 0:
    invariant $1.wf(), !(*self is Nil)
    invariant [G01] pr_mlines_t(vx_it0, *previous, $1.out()).push(Out::De).push(Out::Line) == pr_mlines(*self, old($1).out())
    invariant $1.dep() == old($1).dep() + 1
    invariant [G02] never_open(previous.item) || (!$1.mon().pend && pun($1.mon().last))
    invariant [G02] (if vx_it0 is Nil { never_open(previous.item) } else { last_never_open(vx_it0) }) == last_never_open(*self)
@opt impl Vx_write_block<G>@List<Node<SwitchCase>> open spec fn pl ( & self , t : Seq<Out> ) -> Seq<Out> { pr_clines(*self, t) } open spec fn lfin ( & self , a : Mon , b : Mon ) -> bool { (*self is Nil ==> b == a) && (!(*self is Nil) ==> last_case_open(*self) || (!b.pend && pun(b.last))) }
@fn Vx_write_block<G>@List<Node<SwitchCase>>::write_block
    loop 0:
    invariant $1.wf(), !(*self is Nil)
    invariant [G01] pr_clines_t(vx_it0, *previous, $1.out()).push(Out::De).push(Out::Line) == pr_clines(*self, old($1).out())
    invariant $1.dep() == old($1).dep() + 1
    invariant [G02] case_open(previous.item) || (!$1.mon().pend && pun($1.mon().last))
    invariant [G02] (if vx_it0 is Nil { case_open(previous.item) } else { last_case_open(vx_it0) }) == last_case_open(*self)
