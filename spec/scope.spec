@source ratel visitor transformer
@include visit_common.spec
@take transformer!scope::*
@drop transformer!scope::Debug*
@drop transformer!scope::PartialEq*
@drop transformer!scope::Clone*
@drop transformer!scope::Copy*
@drop Scope::as_usize (address of a scope)
@drop Scope::from_usize (address of a scope)
@derive ScopeKind Clone, Copy, PartialEq, Eq, Structural
@include scope_defs.rs
@include scope_gen.spec

@rewrite & 'ast Scope < 'ast > ~> & 'ast ScopeRef < 'ast >
@rewrite fn new ( arena : Arena ) ~> fn new ( mut arena : Arena )
@rewrite & 'ast Arena ~> Arena
@rewrite self . arena , ~> & mut self . arena ,
@rewrite . used_refs . contains_key ( $x ) ~> . vx_used_refs ( ) . contains_key ( & self . arena , $x )
@rewrite . declared_refs . contains_key ( $x ) ~> . vx_declared_refs ( ) . contains_key ( & self . arena , $x )
@rewrite . used_refs . is_empty ( ) ~> . vx_used_refs ( ) . is_empty ( & self . arena )
@rewrite . declared_refs . is_empty ( ) ~> . vx_declared_refs ( ) . is_empty ( & self . arena )
@rewrite . children . as_list ( ) . is_empty ( ) ~> . vx_children ( ) . is_empty ( & self . arena )
@rewrite . used_this . get ( ) ~> . vx_used_this ( ) . get ( & self . arena )
@rewrite . used_super . get ( ) ~> . vx_used_super ( ) . get ( & self . arena )
@rewrite . used_refs ~> . vx_used_refs ( )
@rewrite . declared_refs ~> . vx_declared_refs ( )
@rewrite . children ~> . vx_children ( )
@rewrite . used_this . set ( $x ) ~> . vx_used_this ( ) . set ( & mut self . arena , $x )
@rewrite . used_super . set ( $x ) ~> . vx_used_super ( ) . set ( & mut self . arena , $x )
@rewrite ScopeAnalyzer { $x } ~> ScopeAnalyzer { vx_g : Ghost ( Trace { start : State { heap : arena . heap ( ) , cur : arena . heap ( ) . len ( ) - 1 } , ev : Seq :: empty ( ) , open : Seq :: empty ( ) } ) , $x }
@rewrite struct ScopeAnalyzer < 'ast > { $x } ~> struct ScopeAnalyzer < 'ast > { pub vx_g : Ghost < Trace < 'ast > > , $x }
@include scope_model.rs

@opt impl Visitor@ScopeAnalyzer open spec fn sc(&self) -> Seq<RefEv<'ast>> { self.vx_g@.ev } open spec fn scopes(&self) -> Seq<ScopeKind> { self.vx_g@.open } open spec fn begin(&self) -> State<'ast> { self.vx_g@.start } open spec fn wf(&self) -> bool { an_wf(*self) }
@fn Scope::new -> r
    proof:
        lemma_no_ids();
    ensures scope_state(r) == fresh($0, ref_id($1)), r.kind == $0, r.parent == $1
@fn ScopeAnalyzer::new -> r
    ensures an_wf(r), r.vx_g@.ev == Seq::<RefEv<'ast>>::empty(), r.vx_g@.open.len() == 0
    ensures r.vx_g@.start.heap == $0.heap().push(fresh(ScopeKind::Function, None)), r.vx_g@.start.cur == $0.heap().len()
@fn Visitor@ScopeAnalyzer::on_enter_scope
    proof:
        lemma_depth(*self.current.v);
    proof_end:
        lemma_step(*old(self), self.arena.heap(), RefEv::Enter($1));
        *self.vx_g.borrow_mut() = Trace { ev: self.vx_g@.ev.push(RefEv::Enter($1)), open: self.vx_g@.open.push($1), ..self.vx_g@ };
@fn Visitor@ScopeAnalyzer::on_leave_scope
    proof:
        lemma_depth(*self.current.v);
        lemma_parent(self.arena.heap(), *self.current.v);
    proof_end:
        lemma_step(*old(self), self.arena.heap(), RefEv::Leave);
        *self.vx_g.borrow_mut() = Trace { ev: self.vx_g@.ev.push(RefEv::Leave), open: self.vx_g@.open.drop_last(), ..self.vx_g@ };
@fn Visitor@ScopeAnalyzer::on_reference_use
    proof_end:
        lemma_step(*old(self), self.arena.heap(), RefEv::Use(*$1));
        *self.vx_g.borrow_mut() = Trace { ev: self.vx_g@.ev.push(RefEv::Use(*$1)), ..self.vx_g@ };
@fn Visitor@ScopeAnalyzer::on_reference_declaration
    proof_end:
        lemma_step(*old(self), self.arena.heap(), RefEv::Decl(*$1));
        *self.vx_g.borrow_mut() = Trace { ev: self.vx_g@.ev.push(RefEv::Decl(*$1)), ..self.vx_g@ };
@fn Visitor@ScopeAnalyzer::on_this_expression
    proof_end:
        lemma_step(*old(self), self.arena.heap(), RefEv::This);
        *self.vx_g.borrow_mut() = Trace { ev: self.vx_g@.ev.push(RefEv::This), ..self.vx_g@ };
@fn analyze -> r
    ensures r.parent is None, r.kind is Function
    before get 0:
        lemma_depth(*visitor.current.v);
        let ghost st = visitor.begin();
        assert(visitor.arena.heap() == run(st, sc_body(module.body, Seq::empty())).heap);
        assert(st.heap.last() == fresh::<'ast>(ScopeKind::Function, None));
        assert(st.cur == st.heap.len() - 1);
        assert(visitor.current.v.id@ == st.cur);
