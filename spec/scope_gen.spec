//! written by gen_visitor.py
@opt trait Visitor spec fn sc(&self) -> Seq<RefEv<'ast>>; spec fn scopes(&self) -> Seq<ScopeKind>; spec fn begin(&self) -> State<'ast>; spec fn wf(&self) -> bool;
@opt trait Visitable spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>>;
@fn Visitable::visit_with
    requires old($1).wf()
    ensures final($1).wf()
    ensures [S01] final($1).sc() == self.v_sc(old($1).sc())
    ensures [S01] final($1).scopes() == old($1).scopes()
    ensures [S01] final($1).begin() == old($1).begin()
@fn Visitor::push_parent
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::pop_parent
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_enter_scope
    abstract
    ensures final(self).begin() == old(self).begin()
    ensures final(self).sc() == old(self).sc().push(RefEv::Enter($1))
    ensures final(self).scopes() == old(self).scopes().push($1)
    requires old(self).wf()
    ensures final(self).wf()
@fn Visitor::on_leave_scope
    abstract
    requires [S01] old(self).scopes().len() > 0
    ensures final(self).begin() == old(self).begin()
    ensures final(self).sc() == old(self).sc().push(RefEv::Leave)
    ensures final(self).scopes() == old(self).scopes().drop_last()
    requires old(self).wf()
    ensures final(self).wf()
@fn Visitor::on_reference_use
    abstract
    ensures final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin()
    ensures final(self).sc() == old(self).sc().push(RefEv::Use(*$1))
    requires old(self).wf()
    ensures final(self).wf()
@fn Visitor::on_reference_declaration
    abstract
    ensures final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin()
    ensures final(self).sc() == old(self).sc().push(RefEv::Decl(*$1))
    requires old(self).wf()
    ensures final(self).wf()
@fn Visitor::on_statement_list
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_this_expression
    abstract
    ensures final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin()
    ensures final(self).sc() == old(self).sc().push(RefEv::This)
    requires old(self).wf()
    ensures final(self).wf()
@fn Visitor::on_identifier_expression
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_literal_expression
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_sequence_expression
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_array_expression
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_member_expression
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_computed_member_expression
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_meta_property
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_call_expression
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_binary_expression
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_prefix_expression
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_postfix_expression
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_conditional_expression
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_template_literal
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_tagged_template_expression
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_spread_expression
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_arrow_expression
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_object_expression
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_function_expression
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_class_expression
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_expression_statement
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_declaration_statement
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_return_statement
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_break_statement
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_continue_statement
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_throw_statement
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_if_statement
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_while_statement
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_do_statement
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_for_statement
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_for_in_statement
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_for_of_statement
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_try_statement
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_block_statement
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_labeled_statement
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_switch_statement
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_function_statement
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_class_statement
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@fn Visitor::on_import_declaration_statement
    ensures final(self).sc() == old(self).sc(), final(self).scopes() == old(self).scopes(), final(self).begin() == old(self).begin(), final(self).wf() == old(self).wf()
@opt impl Visitable@Node<Expression> open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_expr(*self, t) }
@opt impl Visitable@ExpressionNode open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_expr(*self, t) }
@opt impl Visitable@StatementNode open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_stmt(*self, t) }
@opt impl Visitable@ExpressionList open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_exprs(*self, t) }
@opt impl Visitable@StatementList open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_body(*self, t) }
@opt impl Visitable@Module open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_body(self.body, t) }
@opt impl Visitable@Pattern open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_pat(*self, t) }
@opt impl Visitable@PropertyKey open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_key(*self, t) }
@opt impl Visitable@Property open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_prop(*self, t) }
@opt impl Visitable@ThisExpression open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { t }
@opt impl Visitable@Identifier open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { t.push(RefEv::Use(*self)) }
@opt impl Visitable@Literal open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { t }
@opt impl Visitable@MetaPropertyExpression open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { t }
@opt impl Visitable@EmptyName open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { t }
@opt impl Visitable@OptionalName open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { t }
@opt impl Visitable@MandatoryName open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { t.push(RefEv::Decl(self.0.item)) }
@opt impl Visitable@ArrowBody open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_arrow(*self, t) }
@opt impl Visitable@ClassMember open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_member(*self, t) }
@opt impl Visitable@BlockStatement open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_block(*self, t) }
@opt impl Visitable@Node<BlockStatement> open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_block(self.item, t) }
@opt impl Visitable@Declarator open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_declr(*self, t) }
@opt impl Visitable@ForInit open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_forinit(*self, t) }
@opt impl Visitable@CatchClause open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_catch(*self, t) }
@opt impl Visitable@SwitchCase open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_case(*self, t) }
@opt impl Visitable@ForImportSpecifier open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_import(*self, t) }
@opt impl Visitable@ImportSpecifier open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { t.push(RefEv::Decl(self.local.item)) }
@opt impl Visitable@ImportDefaultSpecifier open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { t.push(RefEv::Decl(self.local.item)) }
@opt impl Visitable@ImportNamespaceSpecifier open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { t.push(RefEv::Decl(self.local.item)) }
@opt impl Visitable@Function<EmptyName> open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_func(*self, t) }
@opt impl Visitable@Function<OptionalName> open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_func(*self, t) }
@opt impl Visitable@Function<MandatoryName> open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_func(*self, t.push(RefEv::Decl(self.name.0.item))) }
@opt impl Visitable@Class<OptionalName> open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_class(*self, t) }
@opt impl Visitable@Class<MandatoryName> open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_class(*self, t.push(RefEv::Decl(self.name.0.item))) }
@opt impl Visitable@NodeList<Pattern> open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_pats(*self, t) }
@opt impl Visitable@NodeList<Property> open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_props(*self, t) }
@opt impl Visitable@NodeList<ClassMember> open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_members(*self, t) }
@opt impl Visitable@NodeList<Declarator> open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_decls(*self, t) }
@opt impl Visitable@NodeList<SwitchCase> open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_cases(*self, t) }
@opt impl Visitable@NodeList<ForImportSpecifier> open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_imports(*self, t) }
@opt impl Visitable@Node<Pattern> open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_pat(self.item, t) }
@opt impl Visitable@Node<Property> open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_prop(self.item, t) }
@opt impl Visitable@Node<PropertyKey> open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_key(self.item, t) }
@opt impl Visitable@Node<ClassMember> open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_member(self.item, t) }
@opt impl Visitable@Node<Declarator> open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_declr(self.item, t) }
@opt impl Visitable@Node<SwitchCase> open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_case(self.item, t) }
@opt impl Visitable@Node<CatchClause> open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_catch(self.item, t) }
@opt impl Visitable@Node<ForInit> open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_forinit(self.item, t) }
@opt impl Visitable@Node<ForImportSpecifier> open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_import(self.item, t) }
@opt impl Visitable@Node<Function<EmptyName>> open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_func(self.item, t) }
@opt impl Visitable@Node<TemplateLiteral> open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_exprs(self.item.expressions, t) }
@opt impl Visitable@Option<ExpressionNode> open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_oexpr(*self, t) }
@opt impl Visitable@Option<StatementNode> open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_ostmt(*self, t) }
@opt impl Visitable@Option<Node<ForInit>> open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_oforinit(*self, t) }
@opt impl Visitable@Option<Node<CatchClause>> open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_ocatch(*self, t) }
@opt impl Visitable@Option<BlockNode<Statement>> open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_oblock(*self, t) }
@opt impl Visitable@SequenceExpression open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_exprs(self.body, t) }
@opt impl Visitable@ArrayExpression open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_exprs(self.body, t) }
@opt impl Visitable@MemberExpression open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_expr(self.object, t) }
@opt impl Visitable@ComputedMemberExpression open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_expr(self.property, sc_expr(self.object, t)) }
@opt impl Visitable@CallExpression open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_exprs(self.arguments, sc_expr(self.callee, t)) }
@opt impl Visitable@BinaryExpression open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_expr(self.right, sc_expr(self.left, t)) }
@opt impl Visitable@PrefixExpression open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_expr(self.operand, t) }
@opt impl Visitable@PostfixExpression open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_expr(self.operand, t) }
@opt impl Visitable@ConditionalExpression open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_expr(self.alternate, sc_expr(self.consequent, sc_expr(self.test, t))) }
@opt impl Visitable@TemplateLiteral open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_exprs(self.expressions, t) }
@opt impl Visitable@TaggedTemplateExpression open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_exprs(self.quasi.item.expressions, sc_expr(self.tag, t)) }
@opt impl Visitable@SpreadExpression open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_expr(self.argument, t) }
@opt impl Visitable@ArrowExpression open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_arrow(self.body, sc_pats(self.params, t.push(RefEv::Enter(ScopeKind::Function)))).push(RefEv::Leave) }
@opt impl Visitable@ObjectExpression open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_props(self.body, t) }
@opt impl Visitable@DeclarationStatement open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_decls(self.declarators, t) }
@opt impl Visitable@ReturnStatement open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_oexpr(self.value, t) }
@opt impl Visitable@ThrowStatement open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_expr(self.value, t) }
@opt impl Visitable@IfStatement open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_ostmt(self.alternate, sc_stmt(self.consequent, sc_expr(self.test, t))) }
@opt impl Visitable@WhileStatement open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_stmt(self.body, sc_expr(self.test, t)) }
@opt impl Visitable@DoStatement open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_expr(self.test, sc_stmt(self.body, t)) }
@opt impl Visitable@ForStatement open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_stmt(self.body, sc_oexpr(self.update, sc_oexpr(self.test, sc_oforinit(self.init, t)))) }
@opt impl Visitable@ForInStatement open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_stmt(self.body, sc_expr(self.right, sc_forinit(self.left.item, t))) }
@opt impl Visitable@ForOfStatement open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_stmt(self.body, sc_expr(self.right, sc_forinit(self.left.item, t))) }
@opt impl Visitable@TryStatement open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_oblock(self.finalizer, sc_ocatch(self.handler, sc_block(self.block.item, t))) }
@opt impl Visitable@LabeledStatement open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_stmt(self.body, t) }
@opt impl Visitable@SwitchStatement open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_cases(self.cases.item.body, sc_expr(self.discriminant, t).push(RefEv::Enter(ScopeKind::Block))).push(RefEv::Leave) }
@opt impl Visitable@ImportDeclaration open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_imports(self.specifiers, t) }
@opt impl Visitable@BreakStatement open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { t }
@opt impl Visitable@ContinueStatement open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { t }
@fn Visitable@ExpressionList::visit_with
    loop 0:
    invariant $1.wf()
    invariant [S01] sc_exprs(vx_it0, $1.sc()) == sc_exprs(*self, old($1).sc())
    invariant [S01] $1.scopes() == old($1).scopes()
    invariant [S01] $1.begin() == old($1).begin()
@fn Visitable@StatementList::visit_with
    loop 0:
    invariant $1.wf()
    invariant [S01] sc_stmts(vx_it0, $1.sc()) == sc_body(*self, old($1).sc())
    invariant [S01] $1.scopes() == old($1).scopes()
    invariant [S01] $1.begin() == old($1).begin()
@fn Visitable@Module::visit_with
    loop 0:
    invariant $1.wf()
    invariant [S01] sc_stmts(vx_it0, $1.sc()) == sc_body(self.body, old($1).sc())
    invariant [S01] $1.scopes() == old($1).scopes()
    invariant [S01] $1.begin() == old($1).begin()
@fn Visitable@NodeList<Pattern>::visit_with
    loop 0:
    invariant $1.wf()
    invariant [S01] sc_pats(vx_it0, $1.sc()) == sc_pats(*self, old($1).sc())
    invariant [S01] $1.scopes() == old($1).scopes()
    invariant [S01] $1.begin() == old($1).begin()
@fn Visitable@NodeList<Property>::visit_with
    loop 0:
    invariant $1.wf()
    invariant [S01] sc_props(vx_it0, $1.sc()) == sc_props(*self, old($1).sc())
    invariant [S01] $1.scopes() == old($1).scopes()
    invariant [S01] $1.begin() == old($1).begin()
@fn Visitable@NodeList<ClassMember>::visit_with
    loop 0:
    invariant $1.wf()
    invariant [S01] sc_members(vx_it0, $1.sc()) == sc_members(*self, old($1).sc())
    invariant [S01] $1.scopes() == old($1).scopes()
    invariant [S01] $1.begin() == old($1).begin()
@fn Visitable@NodeList<Declarator>::visit_with
    loop 0:
    invariant $1.wf()
    invariant [S01] sc_decls(vx_it0, $1.sc()) == sc_decls(*self, old($1).sc())
    invariant [S01] $1.scopes() == old($1).scopes()
    invariant [S01] $1.begin() == old($1).begin()
@fn Visitable@NodeList<SwitchCase>::visit_with
    loop 0:
    invariant $1.wf()
    invariant [S01] sc_cases(vx_it0, $1.sc()) == sc_cases(*self, old($1).sc())
    invariant [S01] $1.scopes() == old($1).scopes()
    invariant [S01] $1.begin() == old($1).begin()
@fn Visitable@NodeList<ForImportSpecifier>::visit_with
    loop 0:
    invariant $1.wf()
    invariant [S01] sc_imports(vx_it0, $1.sc()) == sc_imports(*self, old($1).sc())
    invariant [S01] $1.scopes() == old($1).scopes()
    invariant [S01] $1.begin() == old($1).begin()
@fn Visitable@Pattern::visit_with
    loop 0:
    invariant $1.wf()
    invariant [S01] sc_bprops(vx_it0, $1.sc()) == sc_pat(*self, old($1).sc())
    invariant [S01] $1.scopes() == old($1).scopes()
    invariant [S01] $1.begin() == old($1).begin()
@fn visit_bound_property
    requires old($1).wf()
    ensures final($1).wf()
    ensures [S01] final($1).sc() == sc_bprop(*$0, old($1).sc())
    ensures [S01] final($1).scopes() == old($1).scopes()
    ensures [S01] final($1).begin() == old($1).begin()
@fn visit_bound_expression
    requires old($1).wf()
    ensures final($1).wf()
    ensures [S01] final($1).sc() == sc_bexpr(*$0, old($1).sc())
    ensures [S01] final($1).scopes() == old($1).scopes()
    ensures [S01] final($1).begin() == old($1).begin()
    loop 0:
    invariant $1.wf()
    invariant [S01] sc_bprops(vx_it0, $1.sc()) == sc_bexpr(*$0, old($1).sc())
    invariant [S01] $1.scopes() == old($1).scopes()
    invariant [S01] $1.begin() == old($1).begin()
    loop 1:
    invariant $1.wf()
    invariant [S01] sc_bexprs(vx_it1, $1.sc()) == sc_bexpr(*$0, old($1).sc())
    invariant [S01] $1.scopes() == old($1).scopes()
    invariant [S01] $1.begin() == old($1).begin()
