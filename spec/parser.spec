@source ratel
@take ast
@drop ast::node (rendered as the reference it holds)
@drop ast::PartialEq*
@drop ast::Deref*
@drop ast::Copy*
@drop ast::Program
@drop ast::function::Name* (only tells names apart)
@drop OperatorKind::as_str (unit codegen)
@drop OperatorKind::binding_power (unit codegen)
@drop OperatorKind::prefix (unit codegen)
@drop OperatorKind::infix (unit codegen)
@drop OperatorKind::assignment (unit codegen)
@drop OperatorKind::category (unit codegen)
@drop ast::operator::OperatorCategory (unit codegen)
@drop Expression::binding_power (unit codegen)
@take lexer::token::Token
@take lexer::Asi
@take error::Error
@take parser
@take module
@drop module::fmt::Debug* (for people to read)
@drop parser::error::Handle (never used)
@drop impl:EmptyName
@opt weave Token
@opt str_ids yes
@opt field_fn start=vx_start,end=vx_end
@opt mut_push push
@opt hoist yes
@opt loop_isolation false
@opt keep_while_let yes
@opt table VX_LUT Token
@opt local handler NestedHandler
@derive Loc Clone, Copy
@derive OperatorKind Clone, Copy, PartialEq, Eq, Structural
@derive Token Clone, Copy, PartialEq, Eq, Structural
@derive Asi Clone, Copy, PartialEq, Eq, Structural
@derive DeclarationKind Clone, Copy, PartialEq, Eq, Structural
@derive MethodKind Clone, Copy, PartialEq, Eq, Structural
@derive ImportSpecifier Clone, Copy
@derive ImportDefaultSpecifier Clone, Copy
@derive ImportNamespaceSpecifier Clone, Copy
@derive DeclarationStatement Clone, Copy
@derive Block Clone, Copy
@include parser_defs.rs
@include parser_gen.rs
@include parser_wf.rs
@include parser_gen.spec

@rewrite rt :: begin_panic ( $x ) ~> vx_panic ( )
@rewrite :: std :: rt :: begin_panic ( $x ) ~> vx_panic ( )
@rewrite : 'ast > ~> >
@rewrite : 'ast , ~> ,
@rewrite : 'ast + ~> :
@rewrite where N : Name < 'zz > + Parse < 'zz , Output = N > , ~>
@rewrite where N : Name < 'zz > + Parse < 'zz , Output = N > ~>
@rewrite N : Name < 'zz > ~> N
@rewrite Box < str > ~> Text
@rewrite lexer . token ~> lexer . vx_token ( )
@rewrite lexer . quasi ~> lexer . vx_quasi ( )
@rewrite . expect ( $T_s ) ~> . unwrap ( )
@rewrite unsafe { ( * ( $I_t as * const $I_h ) . offset ( $x as isize ) ) ( $y ) } ~> vx_jump_to ( $I_t , $x , $y )
@rewrite unsafe { ( * ( & $I_t as * const $I_h ) . offset ( $x as isize ) ) ( $y ) } ~> vx_jump_to ( $I_t , $x , $y )
@rewrite $I_t [ $x as usize ] ( self ) ~> vx_jump_to ( $I_t , $x , self )
@rewrite match $I_x . item { $y } ~> match * $I_x . item { $y }
@rewrite $I_x . is_lvalue ( ) ~> $I_x . item . is_lvalue ( )
@rewrite where T : Copy , I : Into < T > , ~> where T : VxFrom < I > ,
@rewrite where T : Copy , I : Into < T > ~> where T : VxFrom < I >
@rewrite where T : Copy + From < TemplateLiteral < 'zz > > , ~> where T : VxFrom < TemplateLiteral < 'ast > > ,
@rewrite where T : Copy + From < TemplateLiteral < 'zz > > ~> where T : VxFrom < TemplateLiteral < 'ast > >
@rewrite pub trait ToError { $x } ~> pub trait ToError : Sized { $x }
@rewrite where T : Copy , ~>
@rewrite where T : Copy ~>
@rewrite Node :: new ( & Loc { $x } ) ~> vx_error_node ( )
@rewrite item . into ( ) ~> T :: vx_from ( item )
@rewrite < I , T > ~> < I , T >
@rewrite & $I_s [ 1 .. $I_s . len ( ) - 1 ] ~> vx_unquote ( $I_s )
@rewrite if let Some ( ref init ) = init { $x } ~> if let Some ( init ) = init { let init = & init ; $x }
@rewrite let builder = match ~> let mut builder = match
@rewrite Some ( & expression ) ~> Some ( expression )
@rewrite let mut expressions = expressions . iter ( ) ; ~> let mut expressions = expressions . iter ( ) ;
@rewrite for & $I_e in $I_l { $x } ~> while let Some ( $I_e ) = $I_l . next ( ) { $x }
@rewrite self . array_elements ( | $I_p | $x ) ~>
    { fn vx_get_array < 'ast > ( $I_p : & mut Parser < 'ast > ) -> ExpressionNode < 'ast > { $x } self . array_elements_array ( ) }
@rewrite self . array_elements ( Parser :: $I_f ) ~>
    { fn vx_get_pattern < 'ast > ( vx_p : & mut Parser < 'ast > ) -> Node < 'ast , Pattern < 'ast > > { vx_p . $I_f ( ) } self . array_elements_pattern ( ) }

@rewrite unsafe { self . body . into_list ( ) } ~> self . body . into_list ( )
@fn Module::new -> r
    ensures [P03] r.body == body
@fn Module::body -> r
    ensures [P03] r == unsafe_of::<StatementList<'ast>>(self.body)
@fn Module::arena -> r
    ensures [P03] *r == self.arena
@fn Parser::new -> r
    ensures [P03] r.s() == toks_of(source), r.i() == 0, r.errors@.len() == 0, r.body == lst::<StatementNode<'ast>>(Seq::empty())
@copy Parser::array_elements => array_elements_array
    , get : F ~>
    get ( self ) ~> vx_get_array ( self )
    I ~> Expression<'ast>
@copy Parser::array_elements => array_elements_pattern
    , get : F ~>
    get ( self ) ~> vx_get_pattern ( self )
    I ~> Pattern<'ast>
@copy Parser::raw_block => raw_block_statement
    I :: parse ( self ) ~> parse_statement ( self )
    I ~> Statement<'ast>
@copy Parser::raw_block => raw_block_case
    I :: parse ( self ) ~> parse_case ( self )
    I ~> SwitchCase<'ast>
@copy Parser::raw_block => raw_block_member
    I :: parse ( self ) ~> parse_member ( self )
    I ~> ClassMember<'ast>
@copy Parser::block => block_body
    self . raw_block ( ) ~> self . raw_block_statement ( )
    I ~> Statement<'ast>
@copy Parser::block => block_case
    self . raw_block ( ) ~> self . raw_block_case ( )
    I ~> SwitchCase<'ast>
@copy Parser::block => block_member
    self . raw_block ( ) ~> self . raw_block_member ( )
    I ~> ClassMember<'ast>
@copy Parser::unchecked_block => unchecked_block_body
    self . raw_block ( ) ~> self . raw_block_statement ( )
    I ~> Statement<'ast>
@copy Parse@Statement::parse => parse_statement
    Self :: Output ~> StatementNode<'ast>
@copy Parse@SwitchCase::parse => parse_case
    Self :: Output ~> Node<'ast, SwitchCase<'ast>>
@copy Parse@ClassMember::parse => parse_member
    Self :: Output ~> Node<'ast, ClassMember<'ast>>
    Node :: parse ( par ) ~> parse_method ( par )
@copy Parse@Pattern::parse => parse_pattern
    Self :: Output ~> Node<'ast, Pattern<'ast>>
@copy Parse@EmptyName::parse => parse_empty_name
    Self :: Output ~> EmptyName
@copy Parse@OptionalName::parse => parse_optional_name
    Self :: Output ~> OptionalName<'ast>
@copy Parse@MandatoryName::parse => parse_mandatory_name
    Self :: Output ~> MandatoryName<'ast>
@copy Parse@Function<N>::parse => parse_function_empty
    N :: parse ( par ) ~> parse_empty_name ( par )
    par . block ( ) ~> par . block_body ( )
    Self :: Output ~> Function<'ast, EmptyName>
@copy Parse@Function<N>::parse => parse_function_optional
    N :: parse ( par ) ~> parse_optional_name ( par )
    par . block ( ) ~> par . block_body ( )
    Self :: Output ~> Function<'ast, OptionalName<'ast>>
@copy Parse@Function<N>::parse => parse_function_mandatory
    N :: parse ( par ) ~> parse_mandatory_name ( par )
    par . block ( ) ~> par . block_body ( )
    Self :: Output ~> Function<'ast, MandatoryName<'ast>>
@copy Parse@Node<Function<N>>::parse => parse_method
    Function :: parse ( par ) ~> parse_function_empty ( par )
    Self :: Output ~> Node<'ast, Function<'ast, EmptyName>>
@copy Parse@Class<N>::parse => parse_class_optional
    N :: parse ( par ) ~> parse_optional_name ( par )
    par . block ( ) ~> par . block_member ( )
    Self :: Output ~> Class<'ast, OptionalName<'ast>>
@copy Parse@Class<N>::parse => parse_class_mandatory
    N :: parse ( par ) ~> parse_mandatory_name ( par )
    par . block ( ) ~> par . block_member ( )
    Self :: Output ~> Class<'ast, MandatoryName<'ast>>
@in Parser::function_expression
    Function :: parse ~> parse_function_optional
@in Parser::class_expression
    Class :: parse ~> parse_class_optional
@in Parser::function_statement
    Function :: parse ~> parse_function_mandatory
@in Parser::class_statement
    Class :: parse ~> parse_class_mandatory
@in Parser::property
    Node :: parse ~> parse_method
@in Parser::block_statement
    self . raw_block ( ) ~> self . raw_block_statement ( )
@in Parser::arrow_function_expression
    self . unchecked_block ( ) ~> self . unchecked_block_body ( )
@in Parser::try_statement
    self . block ( ) ~> self . block_body ( )
    Pattern :: parse ~> parse_pattern
@in Parser::variable_declarator
    Pattern :: parse ~> parse_pattern
@in Parser::switch_statement
    self . block ( ) ~> self . block_case ( )
