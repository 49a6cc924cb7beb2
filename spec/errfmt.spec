@source ratel
@take error
@drop error::Error (the parser's own)
@drop error::Debug* (the message is that of Display)
@drop error::Result*
@drop error::ParseResult*
@opt loop_isolation false
@opt keep_while_let yes

@rewrite impl Display for ~> impl
@rewrite & 'zz str ~> Str
@rewrite & str ~> Str
@rewrite String ~> Str
@rewrite "" ~> vx_empty ( )
@rewrite fmt :: Formatter ~> Fmt
@rewrite fmt :: Result ~> FmtResult
@rewrite $I_s [ .. $e ] ~> $I_s . vx_slice ( 0 , $e )
@rewrite $I_s [ $a .. $b ] ~> $I_s . vx_slice ( $a , $b )
@rewrite $I_x . saturating_sub ( $y ) ~> vx_sat ( $I_x , $y )
@rewrite ( | & ( $I_i , _ ) | $x ) ~>
    ( vx_plain ! ( | vx_p : & ( usize , Str ) | -> ( vx_r : bool ) ensures vx_r == ( { let $I_i = vx_p . 0 ; $x } ) { let $I_i = vx_p . 0 ; $x } ) )
@rewrite for ( $I_a , $I_b ) in $e { $x } ~>
    { let mut vx_k = $e ; while let Some ( ( $I_a , $I_b ) ) = vx_k . vx_next ( ) { $x } }
@include errfmt_defs.rs

@fn log10 -> r [E01]
    ensures r == digits($0 as nat)
    proof:
        let ghost vx_n = num as nat;
        lemma_digits(num as nat);
    loop 0:
    invariant log + digits(num as nat) == digits(vx_n), digits(vx_n) <= vx_n
    decreases num
@fn ParseError::fmt -> r [E01]
    requires (match *$0 { ParseError::UnexpectedToken { source, start, end } => located(source@, start as int, end as int), _ => true })
    ensures r is Ok ==> exists|w: int| final($1).out@ == #[trigger] message(old($1).out@, *$0, w) && fits(*$0, w)
    proof:
        let ghost mut vx_w: int = 0;
        broadcast use axiom_len;
        if let ParseError::UnexpectedToken { source, start, end } = *self {
            lemma_split(source@.subrange(0, start as int));
            lemma_split(source@.subrange(start as int, end as int));
            lemma_row(source@, start as int);
        }
    proof_end:
        assert(f.out@ == message(old(f).out@, *self, vx_w));
    loop 0:
    invariant located(source@, start as int, end as int), source@.len() <= usize::MAX / 2, row(source@, start as int) == lineno, colno == col(source@, start as int), lineno <= source@.len(), colno <= source@.len()
    invariant token_len == chars(source@.subrange(start as int, end as int)), wide(width as int, lineno as int), width <= lineno + 3, vx_w == width
    invariant vx_k@.len() <= to(source@, lineno as int) - from(lineno as int)
    invariant forall|i: int| 0 <= i < vx_k@.len() ==> (#[trigger] vx_k@[i]).0 == to(source@, lineno as int) - vx_k@.len() + i && vx_k@[i].1@ == lines(source@)[vx_k@[i].0 as int]
    invariant f.out@ == shown_to(head(old(f).out@, source@, start as int), source@, start as int, end as int, width as int, to(source@, lineno as int) - vx_k@.len())
    decreases vx_k@.len()
    proof:
        let ghost vx_o = f.out@;
    before log10 0:
        lemma_digits((lineno + 3) as nat);
        lemma_digits((lineno + 2) as nat);
        lemma_digits((lineno + 1) as nat);
        lemma_dec_mono((lineno + 1) as nat, (lineno + 2) as nat);
        lemma_dec_mono((lineno + 2) as nat, (lineno + 3) as nat);
    after log10 0:
        vx_w = width as int;
    loop 1:
    invariant vx_i1 <= vx_e1, vx_e1 == width
    invariant f.out@ == times(marked_line(vx_o, source@, start as int, width as int, index as int), 32, vx_i1 as int)
    decreases vx_e1 - vx_i1
    loop 2:
    invariant vx_i2 <= vx_e2, vx_e2 == colno
    invariant f.out@ == times(bar(times(marked_line(vx_o, source@, start as int, width as int, index as int), 32, width as int).push(32u8).push(32u8)), 32, vx_i2 as int)
    decreases vx_e2 - vx_i2
    loop 3:
    invariant vx_i3 <= vx_e3, vx_e3 == token_len
    invariant f.out@ == times(times(bar(times(marked_line(vx_o, source@, start as int, width as int, index as int), 32, width as int).push(32u8).push(32u8)), 32, colno as int), 94, vx_i3 as int)
    decreases vx_e3 - vx_i3
