//! written by gen_visitor.py
@opt trait Visitor spec fn heap(&self) -> Heap<'ast>;
@opt trait Visitable spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool;
@fn Visitable::visit_with
    requires good(old($1).heap())
    ensures [T01] good(final($1).heap()), le(old($1).heap(), final($1).heap())
    ensures [T01] forall|vk: ExpressionNode<'ast>| #![trigger was_set(final($1).heap(), vk)] #![trigger self.v_arr(vk)] self.v_arr(vk) ==> was_set(final($1).heap(), vk)
@fn Visitor::push_parent
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::pop_parent
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_enter_scope
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_leave_scope
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_reference_use
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_reference_declaration
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_statement_list
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_this_expression
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_identifier_expression
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_literal_expression
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_sequence_expression
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_array_expression
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_member_expression
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_computed_member_expression
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_meta_property
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_call_expression
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_binary_expression
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_prefix_expression
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_postfix_expression
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_conditional_expression
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_template_literal
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_tagged_template_expression
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_spread_expression
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_arrow_expression
    abstract
    requires good(old(self).heap()), read(old(self).heap(), *$2).item == Expression::Arrow(*$1)
    ensures [T01] good(final(self).heap()), le(old(self).heap(), final(self).heap()), was_set(final(self).heap(), *$2)
@fn Visitor::on_object_expression
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_function_expression
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_class_expression
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_expression_statement
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_declaration_statement
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_return_statement
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_break_statement
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_continue_statement
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_throw_statement
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_if_statement
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_while_statement
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_do_statement
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_for_statement
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_for_in_statement
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_for_of_statement
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_try_statement
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_block_statement
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_labeled_statement
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_switch_statement
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_function_statement
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_class_statement
    ensures [T01] final(self).heap() == old(self).heap()
@fn Visitor::on_import_declaration_statement
    ensures [T01] final(self).heap() == old(self).heap()
@opt impl Visitable@Node<Expression> open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_expr(*self, vk) }
@opt impl Visitable@ExpressionNode open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_expr(*self, vk) }
@opt impl Visitable@StatementNode open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_stmt(*self, vk) }
@opt impl Visitable@ExpressionList open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_exprs(*self, vk) }
@opt impl Visitable@StatementList open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_body(*self, vk) }
@opt impl Visitable@Module open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_body(self.body, vk) }
@opt impl Visitable@Pattern open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_pat(*self, vk) }
@opt impl Visitable@PropertyKey open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_key(*self, vk) }
@opt impl Visitable@Property open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_prop(*self, vk) }
@opt impl Visitable@ThisExpression open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { false }
@opt impl Visitable@Identifier open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { false }
@opt impl Visitable@Literal open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { false }
@opt impl Visitable@MetaPropertyExpression open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { false }
@opt impl Visitable@EmptyName open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { false }
@opt impl Visitable@OptionalName open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { false }
@opt impl Visitable@MandatoryName open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { false }
@opt impl Visitable@ArrowBody open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_arrow(*self, vk) }
@opt impl Visitable@ClassMember open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_member(*self, vk) }
@opt impl Visitable@BlockStatement open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_block(*self, vk) }
@opt impl Visitable@Node<BlockStatement> open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_block(self.item, vk) }
@opt impl Visitable@Declarator open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_declr(*self, vk) }
@opt impl Visitable@ForInit open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_forinit(*self, vk) }
@opt impl Visitable@CatchClause open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_catch(*self, vk) }
@opt impl Visitable@SwitchCase open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_case(*self, vk) }
@opt impl Visitable@ForImportSpecifier open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_import(*self, vk) }
@opt impl Visitable@ImportSpecifier open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { false }
@opt impl Visitable@ImportDefaultSpecifier open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { false }
@opt impl Visitable@ImportNamespaceSpecifier open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { false }
@opt impl Visitable@Function<EmptyName> open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_func(*self, vk) }
@opt impl Visitable@Function<OptionalName> open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_func(*self, vk) }
@opt impl Visitable@Function<MandatoryName> open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_func(*self, vk) }
@opt impl Visitable@Class<OptionalName> open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_class(*self, vk) }
@opt impl Visitable@Class<MandatoryName> open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_class(*self, vk) }
@opt impl Visitable@NodeList<Pattern> open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_pats(*self, vk) }
@opt impl Visitable@NodeList<Property> open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_props(*self, vk) }
@opt impl Visitable@NodeList<ClassMember> open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_members(*self, vk) }
@opt impl Visitable@NodeList<Declarator> open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_decls(*self, vk) }
@opt impl Visitable@NodeList<SwitchCase> open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_cases(*self, vk) }
@opt impl Visitable@NodeList<ForImportSpecifier> open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_imports(*self, vk) }
@opt impl Visitable@Node<Pattern> open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_pat(self.item, vk) }
@opt impl Visitable@Node<Property> open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_prop(self.item, vk) }
@opt impl Visitable@Node<PropertyKey> open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_key(self.item, vk) }
@opt impl Visitable@Node<ClassMember> open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_member(self.item, vk) }
@opt impl Visitable@Node<Declarator> open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_declr(self.item, vk) }
@opt impl Visitable@Node<SwitchCase> open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_case(self.item, vk) }
@opt impl Visitable@Node<CatchClause> open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_catch(self.item, vk) }
@opt impl Visitable@Node<ForInit> open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_forinit(self.item, vk) }
@opt impl Visitable@Node<ForImportSpecifier> open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_import(self.item, vk) }
@opt impl Visitable@Node<Function<EmptyName>> open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_func(self.item, vk) }
@opt impl Visitable@Node<TemplateLiteral> open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_exprs(self.item.expressions, vk) }
@opt impl Visitable@Option<ExpressionNode> open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_oexpr(*self, vk) }
@opt impl Visitable@Option<StatementNode> open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_ostmt(*self, vk) }
@opt impl Visitable@Option<Node<ForInit>> open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_oforinit(*self, vk) }
@opt impl Visitable@Option<Node<CatchClause>> open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_ocatch(*self, vk) }
@opt impl Visitable@Option<BlockNode<Statement>> open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_oblock(*self, vk) }
@opt impl Visitable@SequenceExpression open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_exprs(self.body, vk) }
@opt impl Visitable@ArrayExpression open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_exprs(self.body, vk) }
@opt impl Visitable@MemberExpression open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_expr(self.object, vk) }
@opt impl Visitable@ComputedMemberExpression open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_expr(self.object, vk) || arr_expr(self.property, vk) }
@opt impl Visitable@CallExpression open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_expr(self.callee, vk) || arr_exprs(self.arguments, vk) }
@opt impl Visitable@BinaryExpression open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_expr(self.left, vk) || arr_expr(self.right, vk) }
@opt impl Visitable@PrefixExpression open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_expr(self.operand, vk) }
@opt impl Visitable@PostfixExpression open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_expr(self.operand, vk) }
@opt impl Visitable@ConditionalExpression open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_expr(self.test, vk) || arr_expr(self.consequent, vk) || arr_expr(self.alternate, vk) }
@opt impl Visitable@TemplateLiteral open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_exprs(self.expressions, vk) }
@opt impl Visitable@TaggedTemplateExpression open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_expr(self.tag, vk) || arr_exprs(self.quasi.item.expressions, vk) }
@opt impl Visitable@SpreadExpression open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_expr(self.argument, vk) }
@opt impl Visitable@ArrowExpression open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_pats(self.params, vk) || arr_arrow(self.body, vk) }
@opt impl Visitable@ObjectExpression open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_props(self.body, vk) }
@opt impl Visitable@DeclarationStatement open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_decls(self.declarators, vk) }
@opt impl Visitable@ReturnStatement open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_oexpr(self.value, vk) }
@opt impl Visitable@ThrowStatement open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_expr(self.value, vk) }
@opt impl Visitable@IfStatement open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_expr(self.test, vk) || arr_stmt(self.consequent, vk) || arr_ostmt(self.alternate, vk) }
@opt impl Visitable@WhileStatement open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_expr(self.test, vk) || arr_stmt(self.body, vk) }
@opt impl Visitable@DoStatement open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_stmt(self.body, vk) || arr_expr(self.test, vk) }
@opt impl Visitable@ForStatement open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_oforinit(self.init, vk) || arr_oexpr(self.test, vk) || arr_oexpr(self.update, vk) || arr_stmt(self.body, vk) }
@opt impl Visitable@ForInStatement open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_forinit(self.left.item, vk) || arr_expr(self.right, vk) || arr_stmt(self.body, vk) }
@opt impl Visitable@ForOfStatement open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_forinit(self.left.item, vk) || arr_expr(self.right, vk) || arr_stmt(self.body, vk) }
@opt impl Visitable@TryStatement open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_block(self.block.item, vk) || arr_ocatch(self.handler, vk) || arr_oblock(self.finalizer, vk) }
@opt impl Visitable@LabeledStatement open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_stmt(self.body, vk) }
@opt impl Visitable@SwitchStatement open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_expr(self.discriminant, vk) || arr_cases(self.cases.item.body, vk) }
@opt impl Visitable@ImportDeclaration open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { arr_imports(self.specifiers, vk) }
@opt impl Visitable@BreakStatement open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { false }
@opt impl Visitable@ContinueStatement open spec fn v_arr ( & self , vk : ExpressionNode<'ast> ) -> bool { false }
@fn Visitable@ExpressionList::visit_with
    loop 0:
    invariant good($1.heap()), le(old($1).heap(), $1.heap())
    invariant [T01] forall|vk: ExpressionNode<'ast>| #![trigger was_set($1.heap(), vk)] #![trigger arr_exprs(vx_it0, vk)] arr_exprs(*self, vk) ==> arr_exprs(vx_it0, vk) || was_set($1.heap(), vk)
@fn Visitable@StatementList::visit_with
    loop 0:
    invariant good($1.heap()), le(old($1).heap(), $1.heap())
    invariant [T01] forall|vk: ExpressionNode<'ast>| #![trigger was_set($1.heap(), vk)] #![trigger arr_stmts(vx_it0, vk)] arr_body(*self, vk) ==> arr_stmts(vx_it0, vk) || was_set($1.heap(), vk)
@fn Visitable@Module::visit_with
    loop 0:
    invariant good($1.heap()), le(old($1).heap(), $1.heap())
    invariant [T01] forall|vk: ExpressionNode<'ast>| #![trigger was_set($1.heap(), vk)] #![trigger arr_stmts(vx_it0, vk)] arr_body(self.body, vk) ==> arr_stmts(vx_it0, vk) || was_set($1.heap(), vk)
@fn Visitable@NodeList<Pattern>::visit_with
    loop 0:
    invariant good($1.heap()), le(old($1).heap(), $1.heap())
    invariant [T01] forall|vk: ExpressionNode<'ast>| #![trigger was_set($1.heap(), vk)] #![trigger arr_pats(vx_it0, vk)] arr_pats(*self, vk) ==> arr_pats(vx_it0, vk) || was_set($1.heap(), vk)
@fn Visitable@NodeList<Property>::visit_with
    loop 0:
    invariant good($1.heap()), le(old($1).heap(), $1.heap())
    invariant [T01] forall|vk: ExpressionNode<'ast>| #![trigger was_set($1.heap(), vk)] #![trigger arr_props(vx_it0, vk)] arr_props(*self, vk) ==> arr_props(vx_it0, vk) || was_set($1.heap(), vk)
@fn Visitable@NodeList<ClassMember>::visit_with
    loop 0:
    invariant good($1.heap()), le(old($1).heap(), $1.heap())
    invariant [T01] forall|vk: ExpressionNode<'ast>| #![trigger was_set($1.heap(), vk)] #![trigger arr_members(vx_it0, vk)] arr_members(*self, vk) ==> arr_members(vx_it0, vk) || was_set($1.heap(), vk)
@fn Visitable@NodeList<Declarator>::visit_with
    loop 0:
    invariant good($1.heap()), le(old($1).heap(), $1.heap())
    invariant [T01] forall|vk: ExpressionNode<'ast>| #![trigger was_set($1.heap(), vk)] #![trigger arr_decls(vx_it0, vk)] arr_decls(*self, vk) ==> arr_decls(vx_it0, vk) || was_set($1.heap(), vk)
@fn Visitable@NodeList<SwitchCase>::visit_with
    loop 0:
    invariant good($1.heap()), le(old($1).heap(), $1.heap())
    invariant [T01] forall|vk: ExpressionNode<'ast>| #![trigger was_set($1.heap(), vk)] #![trigger arr_cases(vx_it0, vk)] arr_cases(*self, vk) ==> arr_cases(vx_it0, vk) || was_set($1.heap(), vk)
@fn Visitable@NodeList<ForImportSpecifier>::visit_with
    loop 0:
    invariant good($1.heap()), le(old($1).heap(), $1.heap())
    invariant [T01] forall|vk: ExpressionNode<'ast>| #![trigger was_set($1.heap(), vk)] #![trigger arr_imports(vx_it0, vk)] arr_imports(*self, vk) ==> arr_imports(vx_it0, vk) || was_set($1.heap(), vk)
@fn Visitable@Pattern::visit_with
    loop 0:
    invariant good($1.heap()), le(old($1).heap(), $1.heap())
    invariant [T01] forall|vk: ExpressionNode<'ast>| #![trigger was_set($1.heap(), vk)] #![trigger arr_bprops(vx_it0, vk)] arr_pat(*self, vk) ==> arr_bprops(vx_it0, vk) || was_set($1.heap(), vk)
@fn visit_bound_property
    requires good(old($1).heap())
    ensures [T01] good(final($1).heap()), le(old($1).heap(), final($1).heap())
    ensures [T01] forall|vk: ExpressionNode<'ast>| #![trigger was_set(final($1).heap(), vk)] #![trigger arr_bprop(*$0, vk)] arr_bprop(*$0, vk) ==> was_set(final($1).heap(), vk)
@fn visit_bound_expression
    requires good(old($1).heap())
    ensures [T01] good(final($1).heap()), le(old($1).heap(), final($1).heap())
    ensures [T01] forall|vk: ExpressionNode<'ast>| #![trigger was_set(final($1).heap(), vk)] #![trigger arr_bexpr(*$0, vk)] arr_bexpr(*$0, vk) ==> was_set(final($1).heap(), vk)
    loop 0:
    invariant good($1.heap()), le(old($1).heap(), $1.heap())
    invariant [T01] forall|vk: ExpressionNode<'ast>| #![trigger was_set($1.heap(), vk)] #![trigger arr_bprops(vx_it0, vk)] arr_bexpr(*$0, vk) ==> arr_bprops(vx_it0, vk) || was_set($1.heap(), vk)
    loop 1:
    invariant good($1.heap()), le(old($1).heap(), $1.heap())
    invariant [T01] forall|vk: ExpressionNode<'ast>| #![trigger was_set($1.heap(), vk)] #![trigger arr_bexprs(vx_it1, vk)] arr_bexpr(*$0, vk) ==> arr_bexprs(vx_it1, vk) || was_set($1.heap(), vk)
