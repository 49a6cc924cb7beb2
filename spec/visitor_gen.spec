//! written by gen_visitor.py
@opt trait Visitor spec fn refs(&self) -> Seq<RefEv<'ast>>; spec fn sc(&self) -> Seq<RefEv<'ast>>; spec fn nodes(&self) -> Seq<NodeEv<'ast>>; spec fn ents(&self) -> Set<Entry<'ast>>; spec fn parents(&self) -> Seq<ParentNode<'ast>>; spec fn scopes(&self) -> Seq<ScopeKind>;
@opt trait Visitable spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>>; spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>>; spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>>; spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool;
@fn Visitable::visit_with
    ensures [V02] final($1).refs() == self.v_refs(old($1).refs())
    ensures [S01] final($1).sc() == self.v_sc(old($1).sc())
    ensures [V03] final($1).nodes() == self.v_nodes(old($1).nodes())
    ensures [V01] final($1).parents() == old($1).parents()
    ensures [V01] final($1).scopes() == old($1).scopes()
    ensures [V01] forall|e: Entry<'ast>| final($1).ents().contains(e) ==> old($1).ents().contains(e) || self.v_ent(old($1).parents(), e)
@fn Visitor::push_parent
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).nodes() == old(self).nodes(), final(self).ents() == old(self).ents(), final(self).scopes() == old(self).scopes()
    ensures final(self).parents() == old(self).parents().push($1)
@fn Visitor::pop_parent
    requires [V01] old(self).parents().len() > 0
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).nodes() == old(self).nodes(), final(self).ents() == old(self).ents(), final(self).scopes() == old(self).scopes()
    ensures final(self).parents() == old(self).parents().drop_last()
@fn Visitor::on_enter_scope
    ensures final(self).nodes() == old(self).nodes(), final(self).ents() == old(self).ents(), final(self).parents() == old(self).parents()
    ensures final(self).refs() == old(self).refs().push(RefEv::Enter($1))
    ensures final(self).sc() == old(self).sc().push(RefEv::Enter($1))
    ensures final(self).scopes() == old(self).scopes().push($1)
@fn Visitor::on_leave_scope
    requires [V01] old(self).scopes().len() > 0
    ensures final(self).nodes() == old(self).nodes(), final(self).ents() == old(self).ents(), final(self).parents() == old(self).parents()
    ensures final(self).refs() == old(self).refs().push(RefEv::Leave)
    ensures final(self).sc() == old(self).sc().push(RefEv::Leave)
    ensures final(self).scopes() == old(self).scopes().drop_last()
@fn Visitor::on_reference_use
    ensures final(self).nodes() == old(self).nodes(), final(self).ents() == old(self).ents(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).refs() == old(self).refs().push(RefEv::Use(*$1))
    ensures final(self).sc() == old(self).sc().push(RefEv::Use(*$1))
@fn Visitor::on_reference_declaration
    ensures final(self).nodes() == old(self).nodes(), final(self).ents() == old(self).ents(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).refs() == old(self).refs().push(RefEv::Decl(*$1))
    ensures final(self).sc() == old(self).sc().push(RefEv::Decl(*$1))
@fn Visitor::on_statement_list
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).ents() == old(self).ents(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::List($1))
@fn Visitor::on_this_expression
    ensures final(self).refs() == old(self).refs(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::EThis(*$1))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Expression($1), parents: old(self).parents() })
    ensures final(self).sc() == old(self).sc().push(RefEv::This)
@fn Visitor::on_identifier_expression
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::EIdentifier(*$1, *$2))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Expression($2), parents: old(self).parents() })
@fn Visitor::on_literal_expression
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::ELiteral(*$1, *$2))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Expression($2), parents: old(self).parents() })
@fn Visitor::on_sequence_expression
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::ESequence(*$1, *$2))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Expression($2), parents: old(self).parents() })
@fn Visitor::on_array_expression
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::EArray(*$1, *$2))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Expression($2), parents: old(self).parents() })
@fn Visitor::on_member_expression
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::EMember(*$1, *$2))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Expression($2), parents: old(self).parents() })
@fn Visitor::on_computed_member_expression
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::EComputedMember(*$1, *$2))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Expression($2), parents: old(self).parents() })
@fn Visitor::on_meta_property
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::EMetaProperty(*$1, *$2))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Expression($2), parents: old(self).parents() })
@fn Visitor::on_call_expression
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::ECall(*$1, *$2))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Expression($2), parents: old(self).parents() })
@fn Visitor::on_binary_expression
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::EBinary(*$1, *$2))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Expression($2), parents: old(self).parents() })
@fn Visitor::on_prefix_expression
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::EPrefix(*$1, *$2))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Expression($2), parents: old(self).parents() })
@fn Visitor::on_postfix_expression
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::EPostfix(*$1, *$2))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Expression($2), parents: old(self).parents() })
@fn Visitor::on_conditional_expression
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::EConditional(*$1, *$2))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Expression($2), parents: old(self).parents() })
@fn Visitor::on_template_literal
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::ETemplate(*$1, *$2))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Expression($2), parents: old(self).parents() })
@fn Visitor::on_tagged_template_expression
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::ETaggedTemplate(*$1, *$2))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Expression($2), parents: old(self).parents() })
@fn Visitor::on_spread_expression
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::ESpread(*$1, *$2))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Expression($2), parents: old(self).parents() })
@fn Visitor::on_arrow_expression
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::EArrow(*$1, *$2))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Expression($2), parents: old(self).parents() })
@fn Visitor::on_object_expression
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::EObject(*$1, *$2))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Expression($2), parents: old(self).parents() })
@fn Visitor::on_function_expression
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::EFunction(*$1, *$2))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Expression($2), parents: old(self).parents() })
@fn Visitor::on_class_expression
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::EClass(*$1, *$2))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Expression($2), parents: old(self).parents() })
@fn Visitor::on_expression_statement
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::SExpression(*$1, *$2))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Statement($2), parents: old(self).parents() })
@fn Visitor::on_declaration_statement
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::SDeclaration(*$1, *$2))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Statement($2), parents: old(self).parents() })
@fn Visitor::on_return_statement
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::SReturn(*$1, *$2))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Statement($2), parents: old(self).parents() })
@fn Visitor::on_break_statement
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::SBreak(*$1, *$2))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Statement($2), parents: old(self).parents() })
@fn Visitor::on_continue_statement
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::SContinue(*$1, *$2))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Statement($2), parents: old(self).parents() })
@fn Visitor::on_throw_statement
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::SThrow(*$1, *$2))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Statement($2), parents: old(self).parents() })
@fn Visitor::on_if_statement
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::SIf(*$1, *$2))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Statement($2), parents: old(self).parents() })
@fn Visitor::on_while_statement
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::SWhile(*$1, *$2))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Statement($2), parents: old(self).parents() })
@fn Visitor::on_do_statement
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::SDo(*$1, *$2))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Statement($2), parents: old(self).parents() })
@fn Visitor::on_for_statement
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::SFor(*$1, *$2))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Statement($2), parents: old(self).parents() })
@fn Visitor::on_for_in_statement
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::SForIn(*$1, *$2))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Statement($2), parents: old(self).parents() })
@fn Visitor::on_for_of_statement
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::SForOf(*$1, *$2))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Statement($2), parents: old(self).parents() })
@fn Visitor::on_try_statement
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::STry(*$1, *$2))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Statement($2), parents: old(self).parents() })
@fn Visitor::on_block_statement
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::SBlock(*$1, *$2))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Statement($2), parents: old(self).parents() })
@fn Visitor::on_labeled_statement
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::SLabeled(*$1, *$2))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Statement($2), parents: old(self).parents() })
@fn Visitor::on_switch_statement
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::SSwitch(*$1, *$2))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Statement($2), parents: old(self).parents() })
@fn Visitor::on_function_statement
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::SFunction(*$1, *$2))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Statement($2), parents: old(self).parents() })
@fn Visitor::on_class_statement
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::SClass(*$1, *$2))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Statement($2), parents: old(self).parents() })
@fn Visitor::on_import_declaration_statement
    ensures final(self).refs() == old(self).refs(), final(self).sc() == old(self).sc(), final(self).parents() == old(self).parents(), final(self).scopes() == old(self).scopes()
    ensures final(self).nodes() == old(self).nodes().push(NodeEv::SImport(*$1, *$2))
    ensures final(self).ents() == old(self).ents().insert(Entry { node: ParentNode::Statement($2), parents: old(self).parents() })
@opt impl Visitable@Node<Expression> open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_expr(*self, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_expr(*self, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_expr(*self, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_expr(*self, P, e) }
@opt impl Visitable@ExpressionNode open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_expr(*self, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_expr(*self, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_expr(*self, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_expr(*self, P, e) }
@opt impl Visitable@StatementNode open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_stmt(*self, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_stmt(*self, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_stmt(*self, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_stmt(*self, P, e) }
@opt impl Visitable@ExpressionList open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_exprs(*self, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_exprs(*self, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_exprs(*self, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_exprs(*self, P, e) }
@opt impl Visitable@StatementList open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_body(*self, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_body(*self, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_body(*self, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_body(*self, P, e) }
@opt impl Visitable@Module open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_body(self.body, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_body(self.body, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_body(self.body, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_body(self.body, P, e) }
@opt impl Visitable@Pattern open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_pat(*self, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_pat(*self, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_pat(*self, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_pat(*self, P, e) }
@opt impl Visitable@PropertyKey open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_key(*self, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_key(*self, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_key(*self, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_key(*self, P, e) }
@opt impl Visitable@Property open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_prop(*self, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_prop(*self, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_prop(*self, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_prop(*self, P, e) }
@opt impl Visitable@ThisExpression open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { t } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { t } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { t } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { false }
@opt impl Visitable@Identifier open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { t.push(RefEv::Use(*self)) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { t.push(RefEv::Use(*self)) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { t } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { false }
@opt impl Visitable@Literal open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { t } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { t } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { t } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { false }
@opt impl Visitable@MetaPropertyExpression open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { t } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { t } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { t } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { false }
@opt impl Visitable@EmptyName open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { t } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { t } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { t } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { false }
@opt impl Visitable@OptionalName open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { t } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { t } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { t } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { false }
@opt impl Visitable@MandatoryName open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { t.push(RefEv::Decl(self.0.item)) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { t.push(RefEv::Decl(self.0.item)) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { t } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { false }
@opt impl Visitable@ArrowBody open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_arrow(*self, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_arrow(*self, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_arrow(*self, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_arrow(*self, P, e) }
@opt impl Visitable@ClassMember open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_member(*self, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_member(*self, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_member(*self, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_member(*self, P, e) }
@opt impl Visitable@BlockStatement open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_block(*self, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_block(*self, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_block(*self, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_block(*self, P, e) }
@opt impl Visitable@Node<BlockStatement> open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_block(self.item, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_block(self.item, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_block(self.item, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_block(self.item, P, e) }
@opt impl Visitable@Declarator open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_declr(*self, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_declr(*self, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_declr(*self, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_declr(*self, P, e) }
@opt impl Visitable@ForInit open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_forinit(*self, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_forinit(*self, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_forinit(*self, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_forinit(*self, P, e) }
@opt impl Visitable@CatchClause open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_catch(*self, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_catch(*self, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_catch(*self, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_catch(*self, P, e) }
@opt impl Visitable@SwitchCase open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_case(*self, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_case(*self, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_case(*self, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_case(*self, P, e) }
@opt impl Visitable@ForImportSpecifier open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_import(*self, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_import(*self, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_import(*self, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_import(*self, P, e) }
@opt impl Visitable@ImportSpecifier open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { t.push(RefEv::Decl(self.local.item)) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { t.push(RefEv::Decl(self.local.item)) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { t } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { false }
@opt impl Visitable@ImportDefaultSpecifier open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { t.push(RefEv::Decl(self.local.item)) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { t.push(RefEv::Decl(self.local.item)) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { t } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { false }
@opt impl Visitable@ImportNamespaceSpecifier open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { t.push(RefEv::Decl(self.local.item)) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { t.push(RefEv::Decl(self.local.item)) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { t } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { false }
@opt impl Visitable@Function<EmptyName> open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_func(*self, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_func(*self, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_func(*self, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_func(*self, P, e) }
@opt impl Visitable@Function<OptionalName> open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_func(*self, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_func(*self, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_func(*self, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_func(*self, P, e) }
@opt impl Visitable@Function<MandatoryName> open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_func(*self, t.push(RefEv::Decl(self.name.0.item))) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_func(*self, t.push(RefEv::Decl(self.name.0.item))) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_func(*self, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_func(*self, P, e) }
@opt impl Visitable@Class<OptionalName> open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_class(*self, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_class(*self, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_class(*self, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_class(*self, P, e) }
@opt impl Visitable@Class<MandatoryName> open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_class(*self, t.push(RefEv::Decl(self.name.0.item))) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_class(*self, t.push(RefEv::Decl(self.name.0.item))) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_class(*self, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_class(*self, P, e) }
@opt impl Visitable@NodeList<Pattern> open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_pats(*self, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_pats(*self, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_pats(*self, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_pats(*self, P, e) }
@opt impl Visitable@NodeList<Property> open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_props(*self, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_props(*self, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_props(*self, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_props(*self, P, e) }
@opt impl Visitable@NodeList<ClassMember> open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_members(*self, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_members(*self, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_members(*self, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_members(*self, P, e) }
@opt impl Visitable@NodeList<Declarator> open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_decls(*self, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_decls(*self, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_decls(*self, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_decls(*self, P, e) }
@opt impl Visitable@NodeList<SwitchCase> open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_cases(*self, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_cases(*self, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_cases(*self, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_cases(*self, P, e) }
@opt impl Visitable@NodeList<ForImportSpecifier> open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_imports(*self, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_imports(*self, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_imports(*self, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_imports(*self, P, e) }
@opt impl Visitable@Node<Pattern> open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_pat(self.item, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_pat(self.item, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_pat(self.item, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_pat(self.item, P, e) }
@opt impl Visitable@Node<Property> open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_prop(self.item, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_prop(self.item, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_prop(self.item, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_prop(self.item, P, e) }
@opt impl Visitable@Node<PropertyKey> open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_key(self.item, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_key(self.item, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_key(self.item, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_key(self.item, P, e) }
@opt impl Visitable@Node<ClassMember> open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_member(self.item, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_member(self.item, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_member(self.item, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_member(self.item, P, e) }
@opt impl Visitable@Node<Declarator> open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_declr(self.item, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_declr(self.item, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_declr(self.item, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_declr(self.item, P, e) }
@opt impl Visitable@Node<SwitchCase> open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_case(self.item, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_case(self.item, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_case(self.item, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_case(self.item, P, e) }
@opt impl Visitable@Node<CatchClause> open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_catch(self.item, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_catch(self.item, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_catch(self.item, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_catch(self.item, P, e) }
@opt impl Visitable@Node<ForInit> open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_forinit(self.item, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_forinit(self.item, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_forinit(self.item, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_forinit(self.item, P, e) }
@opt impl Visitable@Node<ForImportSpecifier> open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_import(self.item, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_import(self.item, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_import(self.item, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_import(self.item, P, e) }
@opt impl Visitable@Node<Function<EmptyName>> open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_func(self.item, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_func(self.item, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_func(self.item, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_func(self.item, P, e) }
@opt impl Visitable@Node<TemplateLiteral> open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_exprs(self.item.expressions, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_exprs(self.item.expressions, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_exprs(self.item.expressions, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_exprs(self.item.expressions, P, e) }
@opt impl Visitable@Option<ExpressionNode> open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_oexpr(*self, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_oexpr(*self, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_oexpr(*self, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_oexpr(*self, P, e) }
@opt impl Visitable@Option<StatementNode> open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_ostmt(*self, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_ostmt(*self, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_ostmt(*self, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_ostmt(*self, P, e) }
@opt impl Visitable@Option<Node<ForInit>> open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_oforinit(*self, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_oforinit(*self, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_oforinit(*self, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_oforinit(*self, P, e) }
@opt impl Visitable@Option<Node<CatchClause>> open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_ocatch(*self, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_ocatch(*self, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_ocatch(*self, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_ocatch(*self, P, e) }
@opt impl Visitable@Option<BlockNode<Statement>> open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_oblock(*self, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_oblock(*self, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_oblock(*self, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_oblock(*self, P, e) }
@opt impl Visitable@SequenceExpression open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_exprs(self.body, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_exprs(self.body, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_exprs(self.body, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_exprs(self.body, P, e) }
@opt impl Visitable@ArrayExpression open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_exprs(self.body, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_exprs(self.body, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_exprs(self.body, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_exprs(self.body, P, e) }
@opt impl Visitable@MemberExpression open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_expr(self.object, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_expr(self.object, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_expr(self.object, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_expr(self.object, P, e) }
@opt impl Visitable@ComputedMemberExpression open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_expr(self.property, refs_expr(self.object, t)) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_expr(self.property, sc_expr(self.object, t)) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_expr(self.property, nodes_expr(self.object, t)) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_expr(self.object, P, e) || ent_expr(self.property, P, e) }
@opt impl Visitable@CallExpression open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_exprs(self.arguments, refs_expr(self.callee, t)) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_exprs(self.arguments, sc_expr(self.callee, t)) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_exprs(self.arguments, nodes_expr(self.callee, t)) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_expr(self.callee, P, e) || ent_exprs(self.arguments, P, e) }
@opt impl Visitable@BinaryExpression open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_expr(self.right, refs_expr(self.left, t)) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_expr(self.right, sc_expr(self.left, t)) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_expr(self.right, nodes_expr(self.left, t)) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_expr(self.left, P, e) || ent_expr(self.right, P, e) }
@opt impl Visitable@PrefixExpression open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_expr(self.operand, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_expr(self.operand, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_expr(self.operand, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_expr(self.operand, P, e) }
@opt impl Visitable@PostfixExpression open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_expr(self.operand, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_expr(self.operand, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_expr(self.operand, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_expr(self.operand, P, e) }
@opt impl Visitable@ConditionalExpression open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_expr(self.alternate, refs_expr(self.consequent, refs_expr(self.test, t))) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_expr(self.alternate, sc_expr(self.consequent, sc_expr(self.test, t))) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_expr(self.alternate, nodes_expr(self.consequent, nodes_expr(self.test, t))) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_expr(self.test, P, e) || ent_expr(self.consequent, P, e) || ent_expr(self.alternate, P, e) }
@opt impl Visitable@TemplateLiteral open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_exprs(self.expressions, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_exprs(self.expressions, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_exprs(self.expressions, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_exprs(self.expressions, P, e) }
@opt impl Visitable@TaggedTemplateExpression open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_exprs(self.quasi.item.expressions, refs_expr(self.tag, t)) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_exprs(self.quasi.item.expressions, sc_expr(self.tag, t)) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_exprs(self.quasi.item.expressions, nodes_expr(self.tag, t)) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_expr(self.tag, P, e) || ent_exprs(self.quasi.item.expressions, P, e) }
@opt impl Visitable@SpreadExpression open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_expr(self.argument, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_expr(self.argument, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_expr(self.argument, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_expr(self.argument, P, e) }
@opt impl Visitable@ArrowExpression open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_arrow(self.body, refs_pats(self.params, t.push(RefEv::Enter(ScopeKind::Function)))).push(RefEv::Leave) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_arrow(self.body, sc_pats(self.params, t.push(RefEv::Enter(ScopeKind::Function)))).push(RefEv::Leave) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_arrow(self.body, nodes_pats(self.params, t)) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_pats(self.params, P, e) || ent_arrow(self.body, P, e) }
@opt impl Visitable@ObjectExpression open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_props(self.body, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_props(self.body, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_props(self.body, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_props(self.body, P, e) }
@opt impl Visitable@DeclarationStatement open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_decls(self.declarators, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_decls(self.declarators, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_decls(self.declarators, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_decls(self.declarators, P, e) }
@opt impl Visitable@ReturnStatement open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_oexpr(self.value, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_oexpr(self.value, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_oexpr(self.value, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_oexpr(self.value, P, e) }
@opt impl Visitable@ThrowStatement open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_expr(self.value, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_expr(self.value, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_expr(self.value, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_expr(self.value, P, e) }
@opt impl Visitable@IfStatement open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_ostmt(self.alternate, refs_stmt(self.consequent, refs_expr(self.test, t))) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_ostmt(self.alternate, sc_stmt(self.consequent, sc_expr(self.test, t))) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_ostmt(self.alternate, nodes_stmt(self.consequent, nodes_expr(self.test, t))) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_expr(self.test, P, e) || ent_stmt(self.consequent, P, e) || ent_ostmt(self.alternate, P, e) }
@opt impl Visitable@WhileStatement open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_stmt(self.body, refs_expr(self.test, t)) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_stmt(self.body, sc_expr(self.test, t)) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_stmt(self.body, nodes_expr(self.test, t)) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_expr(self.test, P, e) || ent_stmt(self.body, P, e) }
@opt impl Visitable@DoStatement open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_expr(self.test, refs_stmt(self.body, t)) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_expr(self.test, sc_stmt(self.body, t)) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_expr(self.test, nodes_stmt(self.body, t)) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_stmt(self.body, P, e) || ent_expr(self.test, P, e) }
@opt impl Visitable@ForStatement open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_stmt(self.body, refs_oexpr(self.update, refs_oexpr(self.test, refs_oforinit(self.init, t)))) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_stmt(self.body, sc_oexpr(self.update, sc_oexpr(self.test, sc_oforinit(self.init, t)))) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_stmt(self.body, nodes_oexpr(self.update, nodes_oexpr(self.test, nodes_oforinit(self.init, t)))) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_oforinit(self.init, P, e) || ent_oexpr(self.test, P, e) || ent_oexpr(self.update, P, e) || ent_stmt(self.body, P, e) }
@opt impl Visitable@ForInStatement open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_stmt(self.body, refs_expr(self.right, refs_forinit(self.left.item, t))) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_stmt(self.body, sc_expr(self.right, sc_forinit(self.left.item, t))) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_stmt(self.body, nodes_expr(self.right, nodes_forinit(self.left.item, t))) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_forinit(self.left.item, P, e) || ent_expr(self.right, P, e) || ent_stmt(self.body, P, e) }
@opt impl Visitable@ForOfStatement open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_stmt(self.body, refs_expr(self.right, refs_forinit(self.left.item, t))) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_stmt(self.body, sc_expr(self.right, sc_forinit(self.left.item, t))) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_stmt(self.body, nodes_expr(self.right, nodes_forinit(self.left.item, t))) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_forinit(self.left.item, P, e) || ent_expr(self.right, P, e) || ent_stmt(self.body, P, e) }
@opt impl Visitable@TryStatement open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_oblock(self.finalizer, refs_ocatch(self.handler, refs_block(self.block.item, t))) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_oblock(self.finalizer, sc_ocatch(self.handler, sc_block(self.block.item, t))) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_oblock(self.finalizer, nodes_ocatch(self.handler, nodes_block(self.block.item, t))) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_block(self.block.item, P, e) || ent_ocatch(self.handler, P, e) || ent_oblock(self.finalizer, P, e) }
@opt impl Visitable@LabeledStatement open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_stmt(self.body, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_stmt(self.body, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_stmt(self.body, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_stmt(self.body, P, e) }
@opt impl Visitable@SwitchStatement open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_cases(self.cases.item.body, refs_expr(self.discriminant, t).push(RefEv::Enter(ScopeKind::Block))).push(RefEv::Leave) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_cases(self.cases.item.body, sc_expr(self.discriminant, t).push(RefEv::Enter(ScopeKind::Block))).push(RefEv::Leave) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_cases(self.cases.item.body, nodes_expr(self.discriminant, t)) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_expr(self.discriminant, P, e) || ent_cases(self.cases.item.body, P, e) }
@opt impl Visitable@ImportDeclaration open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { refs_imports(self.specifiers, t) } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { sc_imports(self.specifiers, t) } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { nodes_imports(self.specifiers, t) } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { ent_imports(self.specifiers, P, e) }
@opt impl Visitable@BreakStatement open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { t } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { t } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { t } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { false }
@opt impl Visitable@ContinueStatement open spec fn v_refs ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { t } open spec fn v_sc ( & self , t : Seq<RefEv<'ast>> ) -> Seq<RefEv<'ast>> { t } open spec fn v_nodes ( & self , t : Seq<NodeEv<'ast>> ) -> Seq<NodeEv<'ast>> { t } open spec fn v_ent ( & self , P : Seq<ParentNode<'ast>> , e : Entry<'ast> ) -> bool { false }
@fn Visitable@ExpressionList::visit_with
    loop 0:
    invariant [V02] refs_exprs(vx_it0, $1.refs()) == refs_exprs(*self, old($1).refs())
    invariant [S01] sc_exprs(vx_it0, $1.sc()) == sc_exprs(*self, old($1).sc())
    invariant [V03] nodes_exprs(vx_it0, $1.nodes()) == nodes_exprs(*self, old($1).nodes())
    invariant [V01] $1.parents() == old($1).parents()
    invariant [V01] $1.scopes() == old($1).scopes()
    invariant [V01] forall|e: Entry<'ast>| #![trigger ent_exprs(*self, old($1).parents(), e)] #![trigger ent_exprs(vx_it0, old($1).parents(), e)] ent_exprs(vx_it0, old($1).parents(), e) ==> ent_exprs(*self, old($1).parents(), e)
    invariant [V01] forall|e: Entry<'ast>| $1.ents().contains(e) ==> old($1).ents().contains(e) || ent_exprs(*self, old($1).parents(), e)
@fn Visitable@StatementList::visit_with
    loop 0:
    invariant [V02] refs_stmts(vx_it0, $1.refs()) == refs_body(*self, old($1).refs())
    invariant [S01] sc_stmts(vx_it0, $1.sc()) == sc_body(*self, old($1).sc())
    invariant [V03] nodes_stmts(vx_it0, $1.nodes()) == nodes_body(*self, old($1).nodes())
    invariant [V01] $1.parents() == old($1).parents()
    invariant [V01] $1.scopes() == old($1).scopes()
    invariant [V01] forall|e: Entry<'ast>| #![trigger ent_stmts(*self, old($1).parents(), e)] #![trigger ent_stmts(vx_it0, old($1).parents(), e)] ent_stmts(vx_it0, old($1).parents(), e) ==> ent_stmts(*self, old($1).parents(), e)
    invariant [V01] forall|e: Entry<'ast>| $1.ents().contains(e) ==> old($1).ents().contains(e) || ent_stmts(*self, old($1).parents(), e)
@fn Visitable@Module::visit_with
    loop 0:
    invariant [V02] refs_stmts(vx_it0, $1.refs()) == refs_body(self.body, old($1).refs())
    invariant [S01] sc_stmts(vx_it0, $1.sc()) == sc_body(self.body, old($1).sc())
    invariant [V03] nodes_stmts(vx_it0, $1.nodes()) == nodes_body(self.body, old($1).nodes())
    invariant [V01] $1.parents() == old($1).parents()
    invariant [V01] $1.scopes() == old($1).scopes()
    invariant [V01] forall|e: Entry<'ast>| #![trigger ent_stmts(self.body, old($1).parents(), e)] #![trigger ent_stmts(vx_it0, old($1).parents(), e)] ent_stmts(vx_it0, old($1).parents(), e) ==> ent_stmts(self.body, old($1).parents(), e)
    invariant [V01] forall|e: Entry<'ast>| $1.ents().contains(e) ==> old($1).ents().contains(e) || ent_stmts(self.body, old($1).parents(), e)
@fn Visitable@NodeList<Pattern>::visit_with
    loop 0:
    invariant [V02] refs_pats(vx_it0, $1.refs()) == refs_pats(*self, old($1).refs())
    invariant [S01] sc_pats(vx_it0, $1.sc()) == sc_pats(*self, old($1).sc())
    invariant [V03] nodes_pats(vx_it0, $1.nodes()) == nodes_pats(*self, old($1).nodes())
    invariant [V01] $1.parents() == old($1).parents()
    invariant [V01] $1.scopes() == old($1).scopes()
    invariant [V01] forall|e: Entry<'ast>| #![trigger ent_pats(*self, old($1).parents(), e)] #![trigger ent_pats(vx_it0, old($1).parents(), e)] ent_pats(vx_it0, old($1).parents(), e) ==> ent_pats(*self, old($1).parents(), e)
    invariant [V01] forall|e: Entry<'ast>| $1.ents().contains(e) ==> old($1).ents().contains(e) || ent_pats(*self, old($1).parents(), e)
@fn Visitable@NodeList<Property>::visit_with
    loop 0:
    invariant [V02] refs_props(vx_it0, $1.refs()) == refs_props(*self, old($1).refs())
    invariant [S01] sc_props(vx_it0, $1.sc()) == sc_props(*self, old($1).sc())
    invariant [V03] nodes_props(vx_it0, $1.nodes()) == nodes_props(*self, old($1).nodes())
    invariant [V01] $1.parents() == old($1).parents()
    invariant [V01] $1.scopes() == old($1).scopes()
    invariant [V01] forall|e: Entry<'ast>| #![trigger ent_props(*self, old($1).parents(), e)] #![trigger ent_props(vx_it0, old($1).parents(), e)] ent_props(vx_it0, old($1).parents(), e) ==> ent_props(*self, old($1).parents(), e)
    invariant [V01] forall|e: Entry<'ast>| $1.ents().contains(e) ==> old($1).ents().contains(e) || ent_props(*self, old($1).parents(), e)
@fn Visitable@NodeList<ClassMember>::visit_with
    loop 0:
    invariant [V02] refs_members(vx_it0, $1.refs()) == refs_members(*self, old($1).refs())
    invariant [S01] sc_members(vx_it0, $1.sc()) == sc_members(*self, old($1).sc())
    invariant [V03] nodes_members(vx_it0, $1.nodes()) == nodes_members(*self, old($1).nodes())
    invariant [V01] $1.parents() == old($1).parents()
    invariant [V01] $1.scopes() == old($1).scopes()
    invariant [V01] forall|e: Entry<'ast>| #![trigger ent_members(*self, old($1).parents(), e)] #![trigger ent_members(vx_it0, old($1).parents(), e)] ent_members(vx_it0, old($1).parents(), e) ==> ent_members(*self, old($1).parents(), e)
    invariant [V01] forall|e: Entry<'ast>| $1.ents().contains(e) ==> old($1).ents().contains(e) || ent_members(*self, old($1).parents(), e)
@fn Visitable@NodeList<Declarator>::visit_with
    loop 0:
    invariant [V02] refs_decls(vx_it0, $1.refs()) == refs_decls(*self, old($1).refs())
    invariant [S01] sc_decls(vx_it0, $1.sc()) == sc_decls(*self, old($1).sc())
    invariant [V03] nodes_decls(vx_it0, $1.nodes()) == nodes_decls(*self, old($1).nodes())
    invariant [V01] $1.parents() == old($1).parents()
    invariant [V01] $1.scopes() == old($1).scopes()
    invariant [V01] forall|e: Entry<'ast>| #![trigger ent_decls(*self, old($1).parents(), e)] #![trigger ent_decls(vx_it0, old($1).parents(), e)] ent_decls(vx_it0, old($1).parents(), e) ==> ent_decls(*self, old($1).parents(), e)
    invariant [V01] forall|e: Entry<'ast>| $1.ents().contains(e) ==> old($1).ents().contains(e) || ent_decls(*self, old($1).parents(), e)
@fn Visitable@NodeList<SwitchCase>::visit_with
    loop 0:
    invariant [V02] refs_cases(vx_it0, $1.refs()) == refs_cases(*self, old($1).refs())
    invariant [S01] sc_cases(vx_it0, $1.sc()) == sc_cases(*self, old($1).sc())
    invariant [V03] nodes_cases(vx_it0, $1.nodes()) == nodes_cases(*self, old($1).nodes())
    invariant [V01] $1.parents() == old($1).parents()
    invariant [V01] $1.scopes() == old($1).scopes()
    invariant [V01] forall|e: Entry<'ast>| #![trigger ent_cases(*self, old($1).parents(), e)] #![trigger ent_cases(vx_it0, old($1).parents(), e)] ent_cases(vx_it0, old($1).parents(), e) ==> ent_cases(*self, old($1).parents(), e)
    invariant [V01] forall|e: Entry<'ast>| $1.ents().contains(e) ==> old($1).ents().contains(e) || ent_cases(*self, old($1).parents(), e)
@fn Visitable@NodeList<ForImportSpecifier>::visit_with
    loop 0:
    invariant [V02] refs_imports(vx_it0, $1.refs()) == refs_imports(*self, old($1).refs())
    invariant [S01] sc_imports(vx_it0, $1.sc()) == sc_imports(*self, old($1).sc())
    invariant [V03] nodes_imports(vx_it0, $1.nodes()) == nodes_imports(*self, old($1).nodes())
    invariant [V01] $1.parents() == old($1).parents()
    invariant [V01] $1.scopes() == old($1).scopes()
    invariant [V01] forall|e: Entry<'ast>| #![trigger ent_imports(*self, old($1).parents(), e)] #![trigger ent_imports(vx_it0, old($1).parents(), e)] ent_imports(vx_it0, old($1).parents(), e) ==> ent_imports(*self, old($1).parents(), e)
    invariant [V01] forall|e: Entry<'ast>| $1.ents().contains(e) ==> old($1).ents().contains(e) || ent_imports(*self, old($1).parents(), e)
@fn Visitable@Pattern::visit_with
    loop 0:
    invariant [V02] refs_bprops(vx_it0, $1.refs()) == refs_pat(*self, old($1).refs())
    invariant [S01] sc_bprops(vx_it0, $1.sc()) == sc_pat(*self, old($1).sc())
    invariant [V03] nodes_bprops(vx_it0, $1.nodes()) == nodes_pat(*self, old($1).nodes())
    invariant [V01] $1.parents() == old($1).parents()
    invariant [V01] $1.scopes() == old($1).scopes()
    invariant [V01] forall|e: Entry<'ast>| #![trigger ent_pat(*self, old($1).parents(), e)] #![trigger ent_bprops(vx_it0, old($1).parents(), e)] ent_bprops(vx_it0, old($1).parents(), e) ==> ent_pat(*self, old($1).parents(), e)
    invariant [V01] forall|e: Entry<'ast>| $1.ents().contains(e) ==> old($1).ents().contains(e) || ent_pat(*self, old($1).parents(), e)
@fn visit_bound_property
    ensures [V02] final($1).refs() == refs_bprop(*$0, old($1).refs())
    ensures [S01] final($1).sc() == sc_bprop(*$0, old($1).sc())
    ensures [V03] final($1).nodes() == nodes_bprop(*$0, old($1).nodes())
    ensures [V01] final($1).parents() == old($1).parents()
    ensures [V01] final($1).scopes() == old($1).scopes()
    ensures [V01] forall|e: Entry<'ast>| final($1).ents().contains(e) ==> old($1).ents().contains(e) || ent_bprop(*$0, old($1).parents(), e)
@fn visit_bound_expression
    ensures [V02] final($1).refs() == refs_bexpr(*$0, old($1).refs())
    ensures [S01] final($1).sc() == sc_bexpr(*$0, old($1).sc())
    ensures [V03] final($1).nodes() == nodes_bexpr(*$0, old($1).nodes())
    ensures [V01] final($1).parents() == old($1).parents()
    ensures [V01] final($1).scopes() == old($1).scopes()
    ensures [V01] forall|e: Entry<'ast>| final($1).ents().contains(e) ==> old($1).ents().contains(e) || ent_bexpr(*$0, old($1).parents(), e)
    loop 0:
    invariant [V02] refs_bprops(vx_it0, $1.refs()) == refs_bexpr(*$0, old($1).refs())
    invariant [S01] sc_bprops(vx_it0, $1.sc()) == sc_bexpr(*$0, old($1).sc())
    invariant [V03] nodes_bprops(vx_it0, $1.nodes()) == nodes_bexpr(*$0, old($1).nodes())
    invariant [V01] $1.parents() == old($1).parents()
    invariant [V01] $1.scopes() == old($1).scopes()
    invariant [V01] forall|e: Entry<'ast>| #![trigger ent_bexpr(*$0, old($1).parents(), e)] #![trigger ent_bprops(vx_it0, old($1).parents(), e)] ent_bprops(vx_it0, old($1).parents(), e) ==> ent_bexpr(*$0, old($1).parents(), e)
    invariant [V01] forall|e: Entry<'ast>| $1.ents().contains(e) ==> old($1).ents().contains(e) || ent_bexpr(*$0, old($1).parents(), e)
    loop 1:
    invariant [V02] refs_bexprs(vx_it1, $1.refs()) == refs_bexpr(*$0, old($1).refs())
    invariant [S01] sc_bexprs(vx_it1, $1.sc()) == sc_bexpr(*$0, old($1).sc())
    invariant [V03] nodes_bexprs(vx_it1, $1.nodes()) == nodes_bexpr(*$0, old($1).nodes())
    invariant [V01] $1.parents() == old($1).parents()
    invariant [V01] $1.scopes() == old($1).scopes()
    invariant [V01] forall|e: Entry<'ast>| #![trigger ent_bexpr(*$0, old($1).parents(), e)] #![trigger ent_bexprs(vx_it1, old($1).parents(), e)] ent_bexprs(vx_it1, old($1).parents(), e) ==> ent_bexpr(*$0, old($1).parents(), e)
    invariant [V01] forall|e: Entry<'ast>| $1.ents().contains(e) ==> old($1).ents().contains(e) || ent_bexpr(*$0, old($1).parents(), e)
