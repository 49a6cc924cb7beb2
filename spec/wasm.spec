//! the entry points of ratel-wasm (the glue that wasm_bindgen generates around them is left out)
@source ratel wasm
@take error::Error
@take error::ParseError
@take lexer::token::Token
@take wasm!format_errors
@take wasm!transform
@take wasm!generate_ast
@take wasm!generate_ast_estree
@rewrite errors . into_iter ( ) . map ( | $I_e | $x ) . map ( | $I_f | $y ) . collect :: < Vec < String > > ( ) . join ( $z ) ~>
    { let mut vx_l : Vec < String > = Vec :: new ( ) ; let mut vx_i : usize = 0 ; while vx_i < errors . len ( ) { let $I_e = vx_nth ( & errors , vx_i ) ; let $I_f = $x ; vx_l . push ( $y ) ; vx_i = vx_i + 1 ; } let vx_r = vx_join ( vx_l , $z ) ; vx_r }
@rewrite :: alloc :: __export :: must_use ( { :: alloc :: fmt :: format ( $x ) } ) ~> vx_format ( $x )
@rewrite vx_format ( format_args ! ( "{0}" , $x ) ) ~> $x . vx_display ( )
@rewrite vx_format ( format_args ! ( "Error: {0}" , $x ) ) ~> vx_headed ( $x )
@rewrite vx_format ( format_args ! ( "{0:?}" , $x . body ( ) ) ) ~> vx_debug ( & $x , false )
@rewrite vx_format ( format_args ! ( "{0:#?}" , $x . body ( ) ) ) ~> vx_debug ( & $x , true )
@rewrite serde_json :: to_string ( $x ) . unwrap ( ) ~> vx_json ( $x , false )
@rewrite serde_json :: to_string_pretty ( $x ) . unwrap ( ) ~> vx_json ( $x , true )
@rewrite $I_x . to_string ( ) ~> vx_owned ( $I_x )
@rewrite ratel :: parse ( & $x ) ~> vx_parse ( $x )
@rewrite ratel :: parse ( $x ) ~> vx_parse ( $x )
@rewrite ratel_codegen :: codegen ( $x ) ~> vx_codegen ( $x )
@rewrite Box < str > ~> String
@drop impl:Token (unit parser)
@derive Token Clone, Copy, PartialEq, Eq, Structural
@include wasm_defs.rs

@fn format_errors -> r [W01]
    ensures r@ == heading() + joined($0@, $0@.len() as int, $1@)
    loop 0:
    invariant vx_i <= errors@.len(), vx_l@.len() == vx_i
    invariant forall|i: int| 0 <= i < vx_i ==> (#[trigger] vx_l@[i])@ == note(errors@[i], source@)
    decreases errors@.len() - vx_i
    before vx_join 0:
        reveal_strlit("\n");
        assert("\n"@ =~= seq!['\n']);
        assert forall|i: int| 0 <= i < vx_texts(vx_l@).len() implies #[trigger] vx_texts(vx_l@)[i] == note(errors@[i], source@) by { assert(vx_l@[i]@ == note(errors@[i], source@)); }
        lemma_joined_to(errors@, vx_texts(vx_l@), source@, errors@.len() as int);
@fn transform -> r [W01]
    ensures r@ == (match parsed($0@) { Ok(m) => code_of(m, $1), Err(es) => rejection(es, $0@) })
@fn generate_ast -> r [W01]
    ensures r@ == (match parsed($0@) { Ok(m) => debug_of(m, !$1), Err(es) => rejection(es, $0@) })
@fn generate_ast_estree -> r [W01]
    ensures r@ == (match parsed($0@) { Ok(m) => json_of(m, !$1), Err(es) => rejection(es, $0@) })
