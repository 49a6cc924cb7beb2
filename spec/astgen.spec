@source ratel
@include ast_common.spec
@take astgen
@take lexer::token::Token
@drop impl:Debug
@drop impl:StructuralPartialEq
@drop impl:PartialEq
@drop Expression::is_lvalue (unit parser)
@drop Expression::binding_power (unit parser)
@drop Expression::is_allowed_as_bare_statement (unit parser)
@drop Serialize@&T (the same as the one for nodes)
@include operator_tables.rs
@include astgen_defs.rs
@include astgen_gen.rs
@include astgen_lists.rs
@inline SerializeInLoc::in_loc
@inherit NameType
@opt key_ids serialize_field
@include astgen_gen.spec

@rewrite < S > ( & self , serializer : S ) -> Result < S :: SerializeStruct , S :: Error > where S : Serializer ~> ( & self , serializer : Ser ) -> Result < Struct , SerError >
@rewrite < S > ( & self , serializer : S ) -> Result < S :: Ok , S :: Error > where S : Serializer ~> ( & self , serializer : Ser ) -> Result < Json , SerError >
@rewrite fn serialize_integer < S > ( state : & mut S , $x ) -> Result < ( ) , S :: Error > where S : SerializeStruct ~> fn serialize_integer ( state : & mut Struct , $x ) -> Result < ( ) , SerError >
@rewrite trait NameType < 'zz > : Name < 'zz > ~> trait NameType < 'ast > : JName
@rewrite Name < 'ast > for ~> Name for

@fn SerializeInLoc::serialize -> ret
    requires self.okl()
    ensures [A01] ret is Ok, ret->Ok_0@ =~= self.jf()
@fn SerializeInLoc@ArrayExpression::serialize
    loop 0:
    invariant okl_elems(vx_it0), vx_kept@ + l_elems(vx_it0) =~= l_elems(self.body)
    loop 1:
    invariant trim(elems@) == trim(l_elems(self.body)), state@ =~= named("ArrayExpression"@)
    ensures elems@ =~= trim(l_elems(self.body))
@fn SerializeInLoc@Pattern::serialize
    loop 0:
    invariant okl_pelems(vx_it0), vx_kept@ + l_pelems(vx_it0) =~= l_pelems(elements)
@fn Serialize@TemplateQuasis::serialize
    loop 0:
    invariant okl_quasis(quasis), seq@ + l_quasis(quasis) =~= l_quasis(self.0)
@fn Serialize@Module::serialize
    proof:
        lemma_last_end(self.body);
@fn NameType::IN_CLASS -> ret
    ensures [A01] ret@ == Self::jclass()
@fn NameType::IN_FUNCTION -> ret
    ensures [A01] ret@ == Self::jfun()
@rewrite panicking :: panic ( $x ) ~> vx_panic ( )
@rewrite $I_x . len ( ) ~> vx_len ( $I_x )
@rewrite & $I_x [ $a .. $b ] ~> vx_sub ( $I_x , $a , $b )
@rewrite "/" == & value [ index ..= index ] ~> vx_same ( "/" , vx_sub ( value , index , index + 1 ) )
@rewrite unsafe { $I_x . get_unchecked ( $a .. $b ) } ~> vx_sub ( $I_x , $a , $b )
@rewrite prefix == $T_s ~> vx_same ( prefix , $T_s )
@rewrite for $I_i in ( 0 .. $x ) . rev ( ) { $b } ~> let mut $I_i = $x ; while $I_i > 0 { $I_i = $I_i - 1 ; $b }
@rewrite $I_x . bytes ( ) . any ( | $I_c | $c ) ~> { let mut vx_any = false ; let mut vx_k : usize = 0 ; while vx_k < vx_len ( $I_x ) { let $I_c = vx_byte ( $I_x , vx_k ) ; if $c { vx_any = true ; break ; } vx_k = vx_k + 1 ; } vx_any }
@rewrite i64 :: from_str_radix ( $x ) ~> vx_parse ( $x )
@rewrite digits . chars ( ) . filter_map ( | ch | ch . to_digit ( radix ) ) . fold ( 0.0 , | value , digit | { value * f64 :: from ( radix ) + f64 :: from ( digit ) } ) ~> vx_fold ( digits , radix )
@rewrite number . parse ( ) . expect ( $x ) ~> vx_f64 ( number )
@rewrite $I_a . $I_b . iter ( ) . map ( | $I_l | $x ) . collect :: < Vec < _ > > ( ) ~>
    { let mut vx_kept = Holes :: new ( ) ; for $I_l in $I_a . $I_b . iter ( ) { vx_kept . push ( $x ) ; } vx_kept }
@rewrite $I_a . iter ( ) . map ( | $I_l | $x ) . collect :: < Vec < _ > > ( ) ~>
    { let mut vx_kept = Holes :: new ( ) ; for $I_l in $I_a . iter ( ) { vx_kept . push ( $x ) ; } vx_kept }
@rewrite $I_l . item != Expression :: Void ~> ! vx_void ( & $I_l . item )
@rewrite $I_l . item != Pattern :: Void ~> ! vx_pvoid ( & $I_l . item )
@rewrite Some ( & None ) ~> Some ( None )
@rewrite Some ( & Some ( _ ) ) ~> Some ( Some ( _ ) )
@rewrite . iter ( ) . peekable ( ) ~> . iter ( )
@rewrite quasis . peek ( ) . is_none ( ) ~> quasis . is_empty ( )
@rewrite self . body . serialize ( $x ) ~> self . item . body . serialize ( $x )
@derive DeclarationKind Clone, Copy, PartialEq, Eq, Structural
@derive MethodKind Clone, Copy, PartialEq, Eq, Structural
@derive Token Clone, Copy, PartialEq, Eq, Structural
@derive DeclarationStatement Clone, Copy
@derive ArrowBody Clone, Copy
@derive Block Clone, Copy
@derive IfStatement Clone, Copy
@derive ForStatement Clone, Copy
@derive ForInStatement Clone, Copy
@derive ForOfStatement Clone, Copy
@derive TryStatement Clone, Copy
@derive LabeledStatement Clone, Copy
@derive SwitchStatement Clone, Copy
@derive ImportDeclaration Clone, Copy
@derive Function Clone, Copy
@derive Class Clone, Copy
@derive OptionalName Clone, Copy
@derive MandatoryName Clone, Copy
@derive EmptyName Clone, Copy
@derive Statement Clone, Copy
@derive ReturnStatement Clone, Copy
@derive BreakStatement Clone, Copy
@derive ContinueStatement Clone, Copy
@derive ThrowStatement Clone, Copy
@derive WhileStatement Clone, Copy
@derive DoStatement Clone, Copy
@derive SwitchCase Clone, Copy
@derive ClassMember Clone, Copy
@rewrite trait SerializeInLoc { $x } ~> trait SerializeInLoc : JLoc { $x }

@fn expression_type -> ret
    ensures [A01] ret@ == op_type(operator, prefix)
@fn OperatorKind::as_str -> ret
    ensures [A01] ret@ == op_name(*self)
@fn is_computed -> ret
    ensures [A01] ret == (*key is Computed)
@fn is_float -> ret
    ensures [A01] ret == float_mark(value@)
    loop 0:
    invariant 0 <= vx_k <= text_len(value@)
    invariant_except_break !vx_any, forall|i: int| 0 <= i < vx_k ==> !float_byte(#[trigger] text_byte(value@, i))
    ensures vx_any == float_mark(value@)
@fn parse_regex -> ret
    requires regex_text(value@)
    ensures [A01] J::Obj(Map::empty().insert(key_pattern(), J::Str(ret.pattern@)).insert(key_flags(), J::Str(ret.flags@))) == regex_value(value@)
    proof:
        lemma_slash_lt(value@, text_len(value@));
        assert forall|i: int| 0 <= i <= text_len(value@) implies #[trigger] slash_before(value@, i) < i by { lemma_slash_lt(value@, i); }
    loop 0:
    invariant_except_break slash_before(value@, text_len(value@)) == slash_before(value@, index as int), 0 <= index <= text_len(value@)
    ensures end == slash_before(value@, text_len(value@))
@fn serialize_integer -> ret
    requires digits_ok(digits@, radix as int)
    ensures [A01] ret is Ok, final(state)@ == old(state)@.insert(key_value(), integer(digits@, radix as int))
