@source ratel codegen
@rewrite N : Name < 'zz > + ToCode < G > ~> N : ToCode < G >
@include ast_common.spec
@take lexer::token::Token
@take codegen!*
@drop ToCode<G>@u64 (no part of the tree holds a number)
@drop ToCode<G>@Loc<T> (never used: nodes are references)
@drop ToCode<G>@&Loc<T> (the same as the impl for Node)
@drop Expression::is_lvalue (unit parser)
@include operator_tables.rs
@include codegen_defs.rs
@include codegen_gen.rs
@inline Generator::write
@lift Generator::write_expression
@lift Generator::write_expression_list
@inherit Generator
@inherit ClassFunctionDeclaration
@split ToCode::is_open_ended VxOpen
@opt bytes write_bytes write_byte
@opt str_lits yes
@opt hoist yes
@derive OperatorCategory Clone, Copy, PartialEq, Eq, Structural
@derive Token Clone, Copy, PartialEq, Eq, Structural
@derive DeclarationKind Clone, Copy, PartialEq, Eq, Structural
@derive MethodKind Clone, Copy, PartialEq, Eq, Structural
@derive ImportSpecifier Clone, Copy
@derive ImportDefaultSpecifier Clone, Copy
@derive ImportNamespaceSpecifier Clone, Copy
@include codegen_gen.spec

@rewrite impl Default for ~> impl
@rewrite dst . reserve ( $x ) ~> vx_reserve ( dst , $x )
@rewrite dst . capacity ( ) ~> vx_capacity ( dst )
@rewrite dst . set_len ( $x ) ~> vx_set_len ( dst , $x )
@rewrite :: std :: ptr :: copy_nonoverlapping ( src . as_ptr ( ) , dst . as_mut_ptr ( ) . add ( $x ) , $y ) ~> vx_copy ( src , dst , $x , $y )
@rewrite String :: from_utf8_unchecked ( $x ) ~> vx_string ( $x )
@rewrite -> String ~> -> Text
@rewrite Output = String ~> Output = Text
@rewrite code : Vec :: with_capacity ( $x ) ~> vx_t : Ghost ( Seq :: empty ( ) ) , code : Vec :: with_capacity ( $x )
@rewrite struct MinifyingGenerator { $x } ~> struct MinifyingGenerator { pub vx_t : Ghost < Seq < Out > > , $x }
@rewrite struct PrettyGenerator { $x } ~> struct PrettyGenerator { pub vx_t : Ghost < Seq < Out > > , $x }
@rewrite ( * * self ) . to_code ( $I_g ) ~> ( * * self ) . item . to_code ( $I_g )
@rewrite N :: write_function ( $I_g ) ~> < N as ClassFunctionDeclaration < G > > :: write_function ( $I_g )
@rewrite N :: write_class ( $I_g ) ~> < N as ClassFunctionDeclaration < G > > :: write_class ( $I_g )
@rewrite leftmost ( $x ) ~> leftmost ( ( $x ) . vx_in ( ) )
@rewrite ends_without_semicolon ( $x ) ~> ends_without_semicolon ( ( $x ) . vx_in ( ) )
@rewrite starts_with_in ( $x ) ~> starts_with_in ( ( $x ) . vx_in ( ) )
@rewrite . map ( | $I_x | & $I_x . item ) ~> . vx_items ( )
@rewrite $I_x . next ( ) . cloned ( ) ~> vx_cloned ( $I_x . next ( ) )
@rewrite $I_x . bytes ( ) . all ( | $I_c | $I_c . is_ascii_digit ( ) ) ~> vx_all_digits ( $I_x )
@rewrite . as_bytes ( ) ~> . vx_as_bytes ( )
@rewrite ToCode :: < $T_x > :: is_open_ended ~> VxOpen :: is_open_ended
@rewrite $I_a . imported . item == $I_a . local . item ~> vx_same ( $I_a . imported . item , $I_a . local . item )
@rewrite & handler . param ~> & handler . item . param
@rewrite & handler . body ~> & handler . item . body
@rewrite Some ( & Pattern :: $I_v ( ref $I_x ) ) ~> Some ( Pattern :: $I_v ( $I_x ) )
@rewrite quasis . zip ( $x ) ~> vx_zip ( quasis , $x )
@rewrite self . specifiers . iter ( ) . filter ( | $I_s | $x ) . collect :: < Vec < _ > > ( ) ~>
    { let mut vx_kept = vx_none ( ) ; for $I_s in self . specifiers . iter ( ) { if $x { vx_kept = vx_kept . vx_push ( $I_s ) ; } } vx_kept }

@opt trait Generator spec fn wf ( & self ) -> bool ; spec fn out ( & self ) -> Seq<Out> ; spec fn dep ( & self ) -> nat ; spec fn mon ( & self ) -> Mon ;
@opt impl Generator@MinifyingGenerator open spec fn wf ( & self ) -> bool { utf8(self.code@) && self.code@ == min(self.vx_t@) && braced(self.vx_t@) } open spec fn out ( & self ) -> Seq<Out> { self.vx_t@ } open spec fn dep ( & self ) -> nat { dep_of(self.vx_t@) } open spec fn mon ( & self ) -> Mon { mon_of(self.vx_t@) }
@opt impl Generator@PrettyGenerator open spec fn wf ( & self ) -> bool { utf8(self.code@) && self.code@ == pretty(self.vx_t@) && self.dent == dep_of(self.vx_t@) && braced(self.vx_t@) } open spec fn out ( & self ) -> Seq<Out> { self.vx_t@ } open spec fn dep ( & self ) -> nat { dep_of(self.vx_t@) } open spec fn mon ( & self ) -> Mon { mon_of(self.vx_t@) }
@opt trait ClassFunctionDeclaration spec fn pc ( t : Seq<Out> ) -> Seq<Out> ; spec fn pf ( t : Seq<Out> ) -> Seq<Out> ;

@fn Generator::write_byte
    requires old($0).wf()
    requires [G02] old($0).mon().pend ==> pun($1)
    requires [G03] $1 < 128
    ensures final($0).wf(), final($0).out() == old($0).out().push(Out::B($1)), final($0).dep() == old($0).dep(), final($0).mon() == mon_byte(old($0).mon(), $1)
@fn Generator::write_bytes
    requires old($0).wf()
    requires [G02] old($0).mon().pend ==> $1@.len() > 0 && pun($1@[0])
    requires [G03] utf8($1@)
    ensures final($0).wf(), final($0).out() == wr(old($0).out(), $1@), final($0).dep() == old($0).dep(), final($0).mon() == mon_bytes(old($0).mon(), $1@)
@fn Generator::write_pretty
    requires old($0).wf()
    requires [G02] $1 == 32
    ensures final($0).wf(), final($0).out() == old($0).out().push(Out::Gap), final($0).dep() == old($0).dep(), final($0).mon() == mon_gap(old($0).mon())
@fn Generator::new_line
    requires old($0).wf()
    ensures final($0).wf(), final($0).out() == old($0).out().push(Out::Line), final($0).dep() == old($0).dep(), final($0).mon() == mon_gap(old($0).mon())
@fn Generator::indent
    requires old($0).wf(), opened(old($0).out())
    ensures final($0).wf(), final($0).out() == old($0).out().push(Out::In), final($0).dep() == old($0).dep() + 1, final($0).mon() == old($0).mon()
@fn Generator::dedent
    requires old($0).wf(), old($0).dep() > 0
    ensures final($0).wf(), final($0).out() == old($0).out().push(Out::De), final($0).dep() == pred(old($0).dep()), final($0).mon() == old($0).mon()

@fn Generator::consume
    requires $0.wf()
@fn Generator@MinifyingGenerator::consume -> r [G01,G02]
    ensures r.code@ == $0.code@
    ensures [G03] utf8(r.code@)
@fn Generator@PrettyGenerator::consume -> r [G01,G02]
    ensures r.code@ == $0.code@
    ensures [G03] utf8(r.code@)
@fn MinifyingGenerator::default -> r
    ensures r.wf(), r.vx_t@ == Seq::<Out>::empty()
@fn PrettyGenerator::default -> r
    ensures r.wf(), r.vx_t@ == Seq::<Out>::empty()
@fn Generator@MinifyingGenerator::write_byte, Generator@PrettyGenerator::write_byte
    proof_end:
        lemma_utf8_push(old(self).code@, $1);
        lemma_braced(self.vx_t@, Out::B($1)); lemma_push(self.vx_t@, Out::B($1));
        *self.vx_t.borrow_mut() = self.vx_t@.push(Out::B($1));
@fn Generator@MinifyingGenerator::write_bytes, Generator@PrettyGenerator::write_bytes
    proof_end:
        lemma_utf8_cat(old(self).code@, $1@);
        lemma_braced_wr(self.vx_t@, $1@); lemma_wr(self.vx_t@, $1@);
        *self.vx_t.borrow_mut() = wr(self.vx_t@, $1@);
@fn Generator@MinifyingGenerator::write_pretty, Generator@PrettyGenerator::write_pretty
    proof_end:
        lemma_utf8_push(old(self).code@, 32u8);
        lemma_braced(self.vx_t@, Out::Gap); lemma_push(self.vx_t@, Out::Gap);
        *self.vx_t.borrow_mut() = self.vx_t@.push(Out::Gap);
@fn Generator@MinifyingGenerator::new_line
    proof_end:
        lemma_braced(self.vx_t@, Out::Line); lemma_push(self.vx_t@, Out::Line);
        *self.vx_t.borrow_mut() = self.vx_t@.push(Out::Line);
@fn Generator@PrettyGenerator::new_line
    proof:
        lemma_braced(self.vx_t@, Out::B(10u8)); lemma_push(self.vx_t@, Out::B(10u8));
        assert(pretty(self.vx_t@).push(10u8) + blanks(0) =~= pretty(self.vx_t@).push(10u8));
    proof_end:
        lemma_braced(old(self).vx_t@, Out::Line); lemma_push(old(self).vx_t@, Out::Line);
        assert(pretty(self.vx_t@) =~= pretty(old(self).vx_t@.push(Out::Line)));
        *self.vx_t.borrow_mut() = old(self).vx_t@.push(Out::Line);
    loop 0:
    invariant self.wf(), self.dent == old(self).dent, vx_e0 == self.dent, vx_i0 <= vx_e0
    invariant self.code@ == pretty(old(self).vx_t@).push(10u8) + blanks(4 * vx_i0)
    proof:
        let t = self.vx_t@; let s = Out::B(32u8);
        lemma_push(t, s); lemma_push(t.push(s), s); lemma_push(t.push(s).push(s), s); lemma_push(t.push(s).push(s).push(s), s);
        assert(pretty(t).push(32u8).push(32u8).push(32u8).push(32u8) =~= pretty(old(self).vx_t@).push(10u8) + blanks(4 * vx_i0));
@fn Generator@PrettyGenerator::indent
    proof:
        lemma_depth(self.vx_t@);
        assert(self.code.len() == self.code@.len());
    proof_end:
        lemma_braced(self.vx_t@, Out::In); lemma_push(self.vx_t@, Out::In);
        *self.vx_t.borrow_mut() = self.vx_t@.push(Out::In);
@fn Generator@MinifyingGenerator::indent
    proof_end:
        lemma_braced(self.vx_t@, Out::In); lemma_push(self.vx_t@, Out::In);
        *self.vx_t.borrow_mut() = self.vx_t@.push(Out::In);
@fn Generator@MinifyingGenerator::dedent, Generator@PrettyGenerator::dedent
    proof_end:
        lemma_braced(self.vx_t@, Out::De); lemma_push(self.vx_t@, Out::De);
        *self.vx_t.borrow_mut() = self.vx_t@.push(Out::De);
@fn extend_from_slice
    ensures final($0)@ == old($0)@ + $1@
    proof_end:
        assert(dst@ =~= old(dst)@ + src@);

@opt impl ClassFunctionDeclaration<G>@EmptyName open spec fn pc ( t : Seq<Out> ) -> Seq<Out> { t } open spec fn pf ( t : Seq<Out> ) -> Seq<Out> { t }
@opt impl ClassFunctionDeclaration<G>@MandatoryName open spec fn pc ( t : Seq<Out> ) -> Seq<Out> { t.push(Out::B(99u8)).push(Out::B(108u8)).push(Out::B(97u8)).push(Out::B(115u8)).push(Out::B(115u8)) } open spec fn pf ( t : Seq<Out> ) -> Seq<Out> { t.push(Out::B(102u8)).push(Out::B(117u8)).push(Out::B(110u8)).push(Out::B(99u8)).push(Out::B(116u8)).push(Out::B(105u8)).push(Out::B(111u8)).push(Out::B(110u8)) }
@opt impl ClassFunctionDeclaration<G>@OptionalName open spec fn pc ( t : Seq<Out> ) -> Seq<Out> { t.push(Out::B(99u8)).push(Out::B(108u8)).push(Out::B(97u8)).push(Out::B(115u8)).push(Out::B(115u8)) } open spec fn pf ( t : Seq<Out> ) -> Seq<Out> { t.push(Out::B(102u8)).push(Out::B(117u8)).push(Out::B(110u8)).push(Out::B(99u8)).push(Out::B(116u8)).push(Out::B(105u8)).push(Out::B(111u8)).push(Out::B(110u8)) }
@fn ClassFunctionDeclaration::write_class
    requires old($0).wf()
    requires [G02] !old($0).mon().pend
    ensures final($0).wf(), final($0).dep() == old($0).dep()
    ensures [G01] final($0).out() == Self::pc(old($0).out())
    ensures [G02] !final($0).mon().pend
@fn ClassFunctionDeclaration::write_function
    requires old($0).wf()
    requires [G02] !old($0).mon().pend
    ensures final($0).wf(), final($0).dep() == old($0).dep()
    ensures [G01] final($0).out() == Self::pf(old($0).out())
    ensures [G02] !final($0).mon().pend

@fn ToCode<G>@PrefixExpression::to_code, ToCode<G>@ArrowExpression::to_code
    proof:
        reveal_with_fuel(pr_expr, 4);
@fn ToCode<G>@TryStatement::to_code
    proof:
        reveal_with_fuel(pr_stmt, 4);
@fn write_expression
    requires old($0).wf()
    requires [G02] !old($0).mon().pend
    ensures final($0).wf(), final($0).dep() == old($0).dep()
    ensures [G01] final($0).out() == pr_sub((*$1).item, $2 as int, old($0).out())
    ensures [G02] !final($0).mon().pend
@fn write_expression_list
    requires old($0).wf()
    requires [G02] !old($0).mon().pend
    ensures final($0).wf(), final($0).dep() == old($0).dep()
    ensures [G01] final($0).out() == pr_elist(*$1, old($0).out())
    ensures [G02] !final($0).mon().pend
    proof:
        let ghost vx_all = *$1;
    loop 0:
    invariant $0.wf(), $0.dep() == old($0).dep()
    invariant [G01] pr_elist_t(vx_it0, $0.out()) == pr_elist(vx_all, old($0).out())
    invariant [G02] !$0.mon().pend
@fn left_binding_power -> r [G01]
    ensures r == left_level($0)
@fn leftmost -> r [G01]
    ensures *r == lead(*$0)
@fn write_new_callee
    requires old($0).wf()
    requires [G02] !old($0).mon().pend
    ensures final($0).wf(), final($0).dep() == old($0).dep()
    ensures [G01] final($0).out() == pr_newc(*$1, old($0).out())
    ensures [G02] !final($0).mon().pend
    loop 0:
    invariant [G01] tag_root(*leading) == tag_root(*$1)
@fn write_body
    requires old($0).wf()
    requires [G02] old($0).mon().pend ==> (*$1).item is Block || (*$1).item is Empty
    ensures final($0).wf(), final($0).dep() == old($0).dep()
    ensures [G01] final($0).out() == pr_branch(*$1, old($0).out())
    ensures [G02] !final($0).mon().pend && (open_ended((*$1).item) || pun(final($0).mon().last))
@fn ends_without_semicolon -> r
    ensures r == open_ended(*$0)
@fn starts_with_in -> r [G01]
    ensures r == heads_in(*$0)
@fn is_import_specifier -> r [G01]
    ensures r == selective((*$0).item)
@fn quote_for -> r [G01]
    ensures r == quote(sb($0))
    loop 0:
    invariant vx_e0@ == sb($0), vx_i0 <= vx_e0.len(), escaped == esc_at(sb($0), vx_i0 as int), !quoted(sb($0), vx_i0 as int)
    proof:
        if quoted(sb($0), vx_i0 as int) { lemma_quoted(sb($0), vx_i0 as int, sb($0).len() as int); }
@fn ToCode<G>@TemplateLiteral::to_code
    proof:
        if let List::Cons(q, tl) = self.quasis { assert forall|t: Seq<Out>| #[trigger] pr_zip(zip_list(*tl, self.expressions), t) == pr_quasis_t(*tl, self.expressions, t) by { lemma_zip(*tl, self.expressions, t); } }
    loop 0:
    invariant $1.wf(), $1.dep() == old($1).dep()
    invariant [G01] pr_zip(vx_it0, $1.out()) == pr_quasis(self.quasis, self.expressions, old($1).out().push(Out::B(96u8)))
    invariant [G02] !$1.mon().pend
@fn ToCode<G>@ObjectExpression::to_code
    proof:
        reveal_with_fuel(pr_expr, 3);
    loop 0:
    invariant $1.wf(), $1.dep() == old($1).dep() + 1
    invariant [G01] pr_props(vx_it0, $1.out()).push(Out::De).push(Out::Line).push(Out::B(125u8)) == pr_object(self.body, old($1).out())
    invariant [G02] !$1.mon().pend
@fn ToCode<G>@ImportDeclaration::to_code
    proof:
        assert forall|a: NodeList<'ast, ForImportSpecifier<'ast>>| #[trigger] cat_list(a, List::Nil) == a by { lemma_nil(a); }
    loop 0:
    invariant [G01] cat_list(vx_kept, keep(vx_it0, false)) == keep(self.specifiers, false)
    proof:
        lemma_snoc(vx_kept, vx_h0, keep(*vx_t0, false));
    loop 1:
    invariant [G01] cat_list(vx_kept, keep(vx_it1, true)) == keep(self.specifiers, true)
    proof:
        lemma_snoc(vx_kept, vx_h1, keep(*vx_t1, true));
@fn codegen -> r [G01,G02]
    ensures r.code@ == (if $1 { min(pr_module($0.body, Seq::empty())) } else { pretty(pr_module($0.body, Seq::empty())) })
    ensures [G03] utf8(r.code@)
    proof:
        let ghost mut vx_prev: Option<StatementNode<'_>> = None;
    loop 0:
    invariant gen_.wf(), gen_.dep() == 0
    invariant match vx_prev { None => vx_it0 == $0.body && gen_.out() == Seq::<Out>::empty() && !separator, Some(p) => separator == open_ended(p.item) && pr_lines_t(vx_it0, p, gen_.out()) == pr_module($0.body, Seq::empty()) }
    invariant [G02] !gen_.mon().pend && (separator || pun(gen_.mon().last))
    before to_code 0:
        if vx_prev is Some { lemma_braced(gen_.vx_t@, Out::Line); lemma_push(gen_.vx_t@, Out::Line); *gen_.vx_t.borrow_mut() = gen_.vx_t@.push(Out::Line); }
    after to_code 0:
        vx_prev = Some(*vx_h0);
    loop 1:
    invariant gen_.wf(), gen_.dep() == 0
    invariant match previous { None => vx_it1 is Nil && gen_.out() == pr_module($0.body, Seq::empty()), Some(p) => pr_lines_t(vx_it1, p, gen_.out()) == pr_module($0.body, Seq::empty()) }
    invariant [G02] !gen_.mon().pend && match previous { None => true, Some(p) => open_ended(p.item) || pun(gen_.mon().last) }

@fn Expression::binding_power -> r
    ensures r == level(*$0)
@fn Expression::is_allowed_as_bare_statement -> r [G01]
    ensures r == bare(*$0)
@fn Statement::is_block -> r
    ensures r == (*$0 is Block)
@fn OperatorKind::from_token -> r [O02]
    ensures r == op_of($0)
@fn OperatorKind::as_str -> r [O02,G01]
    ensures sb(r) == spelling(*$0)
@fn OperatorKind::binding_power -> r [O02,G01]
    ensures r == op_level(*$0)
@fn OperatorKind::prefix -> r [O02]
    ensures r == is_prefix(*$0)
@fn OperatorKind::infix -> r [O02]
    ensures r == is_infix(*$0)
@fn OperatorKind::assignment -> r [O02,G01]
    ensures r == is_assignment(*$0)
@fn OperatorKind::category -> r [O02,G01,G02]
    ensures r == cat(*$0)
