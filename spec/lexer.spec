@source ratel
@take lexer
@take error::Error
@opt loop_isolation false
@derive Token Copy, Clone, PartialEq, Eq, Structural
@derive Asi Copy, Clone, PartialEq, Eq, Structural

@rewrite unsafe { $x } ~> { $x }
@rewrite * self . ptr . add ( $i ) ~> self . ptr [ $i ]
@rewrite * ( & $I_t as * const $x ) . offset ( $e as isize ) ~> $I_t [ $e as usize ]
@rewrite from_utf8_unchecked ( from_raw_parts ( $p . add ( $s ) , $n__ ) ) ~> vx_slice ( $p , $s , $n__ )
@rewrite & 'zz str ~> Str
@rewrite & str ~> Str
@rewrite Box < str > ~> Str
@rewrite * const u8 ~> & 'arena [ u8 ]
@rewrite . to_owned ( ) . into_boxed_str ( ) ~>
@rewrite $I_a . $I_m ( $x__ ) . chars ( ) . next ( ) ~> vx_first_char ( $I_a . $I_m ( $x__ ) )
@rewrite . expect ( $T_s ) ~> . unwrap ( )
@rewrite $I_a . is_alphanumeric ( ) ~> vx_is_alphanumeric ( $I_a )
@rewrite $I_a . $I_m ( $x__ ) . is_alphanumeric ( ) ~> vx_is_alphanumeric ( $I_a . $I_m ( $x__ ) )
@rewrite "" ~> vx_empty ( )

@prelude
use Token::*;
@end
@include lexer_tables.rs
@include lexer_defs.rs

@fn legal_in_label -> r [L03]
    ensures r == lb(byte)

@handler ByteHandler [L01]
    requires ready(*old($0)), old($0).token_start == old($0).index
    requires vx_pre_ByteHandler(#h, old($0).ptr@[old($0).index as int] as int)
    ensures [L01] step01(*old($0), *final($0))
    ensures [L02] step02(*old($0), *final($0))
    ensures [L03] step03(*old($0), *final($0))
    ensures [L04] step04(*old($0), *final($0))
    ensures [L05] step05(*old($0), *final($0))
    decreases old($0).ptr@.len() - old($0).index, #rank

@fn SLH [L01,L04,L05]
    loop 0:
    invariant moved(*old($0), *$0), ready(*old($0)), old($0).token_start == old($0).index, $0.index < end(*$0), old($0).index < $0.index
    invariant line_comment(old($0).ptr@, old($0).index as int)
    invariant [L04] line_end(old($0).ptr@, old($0).index + 2) == line_end(old($0).ptr@, $0.index + 1)
    decreases $0.ptr@.len() - $0.index
    loop 1:
    invariant ready(*old($0)), mid(*$0), old($0).token_start == old($0).index
    invariant *$0 == (Lexer { index: $0.index, asi: $0.asi, ..*old($0) }), old($0).index < $0.index
    invariant block_comment(old($0).ptr@, old($0).index as int)
    invariant [L04] block_end(old($0).ptr@, old($0).index + 2) == block_end(old($0).ptr@, $0.index as int)
    invariant [L05] $0.asi != Asi::ExplicitSemicolon
    invariant [L05] (block_brk(old($0).ptr@, old($0).index + 2) || old($0).asi == Asi::ImplicitSemicolon) == (block_brk(old($0).ptr@, $0.index as int) || $0.asi == Asi::ImplicitSemicolon)
    decreases $0.ptr@.len() - $0.index
    proof:
    reveal_with_fuel(block_end, 2); reveal_with_fuel(block_brk, 2);

@fn ZER [L01,L04]
    loop 0:
    invariant moved(*old($0), *$0), ready(*old($0)), mid(*$0), old($0).token_start == old($0).index, old($0).index < $0.index
    invariant old($0).ptr@[old($0).index as int] == 48, digit($0.ptr@[$0.index - 1])
    invariant [L04] number(old($0).ptr@, old($0).index as int) == decimal($0.ptr@, $0.index as int)
    ensures [L04] decimal($0.ptr@, $0.index as int) == (LiteralNumber, $0.index as int)
    decreases $0.ptr@.len() - $0.index

@fn DIG [L01,L04]
    loop 0:
    invariant moved(*old($0), *$0), ready(*old($0)), mid(*$0), old($0).token_start == old($0).index, $0.index < end(*$0)
    invariant 49 <= old($0).ptr@[old($0).index as int] <= 57, digit($0.ptr@[$0.index as int])
    invariant [L04] number(old($0).ptr@, old($0).index as int) == decimal($0.ptr@, $0.index + 1)
    decreases $0.ptr@.len() - $0.index

@fn QOT [L01,L04]
    loop 0:
    invariant moved(*old($0), *$0), ready(*old($0)), mid(*$0), old($0).token_start == old($0).index, old($0).index < $0.index
    invariant style == old($0).ptr@[old($0).index as int], style == 34 || style == 39
    invariant [L04] string_end(old($0).ptr@, old($0).index + 1, style) == string_end($0.ptr@, $0.index as int, style)
    decreases $0.ptr@.len() - $0.index

@fn Lexer::from_ptr -> r [L01]
    requires src_ok(ptr@)
    ensures [L01] wf(r), r.ptr == ptr
    ensures [L01] exists|o: Lexer| #[trigger] o.index == 0 && o.ptr == ptr && o.asi == Asi::NoSemicolon && step01(o, r) && step02(o, r) && step03(o, r) && step04(o, r) && step05(o, r)

@fn Lexer::new -> r [L01]
    requires src_ok(str_bytes(source).push(0u8))
    ensures [L01] wf(r), r.ptr@ == str_bytes(source).push(0u8)
    ensures [L01] exists|o: Lexer| #[trigger] o.index == 0 && o.ptr == r.ptr && o.asi == Asi::NoSemicolon && step01(o, r) && step02(o, r) && step03(o, r) && step04(o, r) && step05(o, r)

@fn Lexer::consume [L01]
    requires wf(*old(self))
    ensures [L01] step01(*old(self), *final(self))
    ensures [L02] step02(*old(self), *final(self))
    ensures [L03] step03(*old(self), *final(self))
    ensures [L04] step04(*old(self), *final(self))
    ensures [L05] step05(Lexer { asi: Asi::NoSemicolon, ..*old(self) }, *final(self))

@fn Lexer::read_token [L01,L05]
    requires ready(*old(self))
    ensures [L01] step01(*old(self), *final(self))
    ensures [L02] step02(*old(self), *final(self))
    ensures [L03] step03(*old(self), *final(self))
    ensures [L04] step04(*old(self), *final(self))
    ensures [L05] step05(*old(self), *final(self))
    decreases old(self).ptr@.len() - old(self).index, 2int
    loop 0:
    invariant ready(*old(self)), ready(*self)
    invariant *self == (Lexer { index: self.index, asi: self.asi, ..*old(self) }), old(self).index <= self.index
    invariant [L01,L04] skip(self.ptr@, old(self).index as int) == skip(self.ptr@, self.index as int)
    invariant [L05] (brk(self.ptr@, old(self).index as int) || old(self).asi == Asi::ImplicitSemicolon) == (brk(self.ptr@, self.index as int) || self.asi == Asi::ImplicitSemicolon)
    decreases self.ptr@.len() - self.index

@fn Lexer::token_as_str -> r [L01]
    requires wf(*self)
    ensures [L01] str_is(r, self.ptr@, self.token_start as int, self.index as int)

@fn Lexer::accessor_as_str -> r [L01]
    requires wf(*self)
    ensures [L01] str_is(r, self.ptr@, self.accessor_start as int, self.index as int)

@fn Lexer::handler_from_byte -> r [L01,L02,L03]
    requires old(self) == old(self)
    ensures *final(self) == *old(self)
    ensures r is None <==> blank(byte)
    ensures r matches Some(h) ==> vx_pre_ByteHandler(h, byte as int)

@fn Lexer::loc -> r [L01,N01]
    requires mid(*self)
    ensures r == (self.token_start as u32, self.index as u32)
    ensures [N01] wf(*self) ==> placed(*self, r.0 as int) && placed(*self, r.1 as int) && r.0 <= r.1
@fn Lexer::start -> r [L01,N01]
    requires mid(*self)
    ensures r == self.token_start
    ensures [N01] wf(*self) ==> placed(*self, r as int)
@fn Lexer::end -> r [L01,N01]
    requires mid(*self)
    ensures r == self.index
    ensures [N01] wf(*self) ==> placed(*self, r as int)
@fn Lexer::start_then_consume -> r [L01]
    requires wf(*old(self))
    ensures r == old(self).token_start
    ensures [N01] placed(*old(self), r as int)
    ensures [L01] step01(*old(self), *final(self))
    ensures [L02] step02(*old(self), *final(self))
    ensures [L03] step03(*old(self), *final(self))
    ensures [L04] step04(*old(self), *final(self))
    ensures [L05] step05(Lexer { asi: Asi::NoSemicolon, ..*old(self) }, *final(self))
@fn Lexer::end_then_consume -> r [L01]
    requires wf(*old(self))
    ensures r == old(self).index
    ensures [N01] placed(*old(self), r as int)
    ensures [L01] step01(*old(self), *final(self))
    ensures [L02] step02(*old(self), *final(self))
    ensures [L03] step03(*old(self), *final(self))
    ensures [L04] step04(*old(self), *final(self))
    ensures [L05] step05(Lexer { asi: Asi::NoSemicolon, ..*old(self) }, *final(self))

@fn Lexer::read_template_kind [L01,L04]
    requires ready(*old(self)) || wf(*old(self)), old(self).token_start < old(self).index
    ensures [L01] wf(*final(self)), final(self).ptr == old(self).ptr, final(self).index >= old(self).index
    ensures final(self).asi == old(self).asi, final(self).token_start == old(self).token_start
    ensures [L01] final(self).token != EndOfProgram
    ensures [L04] chunk(old(self).ptr@, old(self).index as int, *final(self))
    loop 0:
    invariant moved(*old(self), *self), mid(*self), start == old(self).index, bnd(self.ptr@, start as int)
    invariant [L04] chunk_end(self.ptr@, old(self).index as int) == chunk_end(self.ptr@, self.index as int)
    decreases self.ptr@.len() - self.index

@fn Lexer::asi -> r [L05]
    ensures r == self.asi

@fn Lexer::invalid_token -> r [L01]
    requires wf(*old(self))
    ensures [P01] r.start == old(self).token_start, r.end == old(self).index
    ensures [P01] str_is(r.raw, old(self).ptr@, r.start as int, r.end as int), r.token == old(self).token
    ensures [L01] old(self).token == EndOfProgram ==> *final(self) == *old(self)
    ensures [L01] old(self).token != EndOfProgram ==> step01(*old(self), *final(self))

@fn Lexer::read_byte -> r [L01]
    requires self.index < self.ptr@.len()
    ensures r == self.ptr@[self.index as int]
@fn Lexer::bump [L01]
    requires old(self).index + 1 < old(self).ptr@.len(), old(self).ptr@.len() <= 0xFFFF_FFFF
    ensures *final(self) == (Lexer { index: (old(self).index + 1) as usize, ..*old(self) })
@fn Lexer::next_byte -> r [L01]
    requires old(self).index + 1 < old(self).ptr@.len(), old(self).ptr@.len() <= 0xFFFF_FFFF
    ensures *final(self) == (Lexer { index: (old(self).index + 1) as usize, ..*old(self) })
    ensures r == final(self).ptr@[final(self).index as int]
@fn Lexer::read_char -> r [L01,L03]
    requires src_ok(old(self).ptr@), bnd(old(self).ptr@, old(self).index as int), old(self).ptr@[old(self).index as int] >= 0x80
    ensures moved(*old(self), *final(self)), final(self).index < old(self).ptr@.len(), bnd(final(self).ptr@, final(self).index as int)
    ensures final(self).index == old(self).index + width(old(self).ptr@[old(self).index as int])
    ensures forall|k: int| old(self).index <= k < final(self).index ==> #[trigger] old(self).ptr@[k] >= 0x80
    ensures r == char_at(old(self).ptr@, old(self).index as int)
    proof:
    assert(width(old(self).ptr@[old(self).index as int]) >= 2);

@fn Lexer::read_binary [L01,L04]
    requires mid(*old(self)), old(self).ptr@[old(self).index - 1] < 0x80, old(self).index > 0
    ensures ended(*old(self), *final(self)), wf(*final(self))
    ensures [L04] (final(self).token, final(self).index as int) == digits(old(self).ptr@, old(self).index as int, 2)
    loop 0:
    invariant moved(*old(self), *self), mid(*self), old(self).index > 0, self.ptr@[self.index - 1] < 0x80
    invariant [L04] run(self.ptr@, old(self).index as int, 2) == run(self.ptr@, self.index as int, 2)
    ensures [L04] run(self.ptr@, self.index as int, 2) == self.index
    decreases self.ptr@.len() - self.index
@fn Lexer::read_octal [L01,L04]
    requires mid(*old(self)), old(self).ptr@[old(self).index - 1] < 0x80, old(self).index > 0
    ensures ended(*old(self), *final(self)), wf(*final(self))
    ensures [L04] (final(self).token, final(self).index as int) == digits(old(self).ptr@, old(self).index as int, 8)
    loop 0:
    invariant moved(*old(self), *self), mid(*self), old(self).index > 0, self.ptr@[self.index - 1] < 0x80
    invariant [L04] run(self.ptr@, old(self).index as int, 8) == run(self.ptr@, self.index as int, 8)
    decreases self.ptr@.len() - self.index
@fn Lexer::read_hexadec [L01,L04]
    requires mid(*old(self)), old(self).ptr@[old(self).index - 1] < 0x80, old(self).index > 0
    ensures ended(*old(self), *final(self)), wf(*final(self))
    ensures [L04] (final(self).token, final(self).index as int) == digits(old(self).ptr@, old(self).index as int, 16)
    loop 0:
    invariant moved(*old(self), *self), mid(*self), old(self).index > 0, self.ptr@[self.index - 1] < 0x80
    invariant [L04] run(self.ptr@, old(self).index as int, 16) == run(self.ptr@, self.index as int, 16)
    decreases self.ptr@.len() - self.index
@fn Lexer::read_float [L01,L04]
    requires mid(*old(self)), old(self).ptr@[old(self).index - 1] < 0x80, old(self).index > 0
    ensures ended(*old(self), *final(self)), wf(*final(self))
    ensures [L04] (final(self).token, final(self).index as int) == float(old(self).ptr@, old(self).index as int)
    loop 0:
    invariant moved(*old(self), *self), mid(*self), old(self).index > 0, self.ptr@[self.index - 1] < 0x80
    invariant [L04] run(self.ptr@, old(self).index as int, 10) == run(self.ptr@, self.index as int, 10)
    ensures [L04] run(self.ptr@, self.index as int, 10) == self.index, !is_e(self.ptr@[self.index as int])
    decreases self.ptr@.len() - self.index
@fn Lexer::read_scientific [L01,L04]
    requires mid(*old(self)), old(self).ptr@[old(self).index - 1] < 0x80, old(self).index > 0
    ensures ended(*old(self), *final(self)), wf(*final(self))
    ensures [L04] (final(self).token, final(self).index as int) == sci(old(self).ptr@, old(self).index as int)
    loop 0:
    invariant moved(*old(self), *self), mid(*self), old(self).index > 0, self.ptr@[self.index - 1] < 0x80
    invariant [L04] run(self.ptr@, start as int, 10) == run(self.ptr@, self.index as int, 10), start <= self.index
    invariant [L04] sci(self.ptr@, old(self).index as int) == digits(self.ptr@, start as int, 10)
    decreases self.ptr@.len() - self.index

@fn Lexer::read_accessor [L01,L03]
    requires mid(*old(self)), bnd(old(self).ptr@, old(self).index as int), old(self).token_start < old(self).index
    ensures [L01] wf(*final(self)), final(self).index >= old(self).index, final(self).token != EndOfProgram
    ensures [L01] *final(self) == (Lexer { index: final(self).index, token: final(self).token, accessor_start: final(self).accessor_start, ..*old(self) })
    ensures [L03] accessor(old(self).ptr@, old(self).index as int, *final(self))
    decreases old(self).ptr@.len() - old(self).index
    loop 0:
    invariant moved(*old(self), *self), mid(*self), bnd(self.ptr@, self.index as int), old(self).token_start < old(self).index
    invariant [L03] skip(self.ptr@, old(self).index as int) == skip(self.ptr@, self.index as int)
    decreases self.ptr@.len() - self.index

@fn Lexer::skip_comment -> r [L01,L03]
    requires mid(*old(self)), old(self).ptr@[old(self).index as int] == 47
    ensures moved(*old(self), *final(self)), mid(*final(self)), bnd(final(self).ptr@, final(self).index as int)
    ensures [L03] r == (line_comment(old(self).ptr@, old(self).index as int) || block_comment(old(self).ptr@, old(self).index as int))
    ensures r ==> final(self).index > old(self).index
    ensures !r ==> *final(self) == *old(self)
    ensures [L03] line_comment(old(self).ptr@, old(self).index as int) ==> final(self).index == line_end(old(self).ptr@, old(self).index + 2)
    ensures [L03] block_comment(old(self).ptr@, old(self).index as int) ==> {
            let e = block_end(old(self).ptr@, old(self).index + 2);
            if e < 0 { final(self).index == end(*final(self)) } else { final(self).index == e } }
    loop 0:
    invariant moved(*old(self), *self), mid(*self), self.index < end(*self), old(self).index < self.index
    invariant line_comment(old(self).ptr@, old(self).index as int)
    invariant [L03] line_end(self.ptr@, old(self).index + 2) == line_end(self.ptr@, self.index + 1)
    decreases self.ptr@.len() - self.index
    loop 1:
    invariant moved(*old(self), *self), mid(*self), old(self).index < self.index
    invariant block_comment(old(self).ptr@, old(self).index as int)
    invariant [L03] block_end(self.ptr@, old(self).index + 2) == block_end(self.ptr@, self.index as int)
    decreases self.ptr@.len() - self.index

@fn Lexer::read_label [L01,L03]
    requires mid(*old(self))
    ensures moved(*old(self), *final(self)), mid(*final(self)), bnd(final(self).ptr@, final(self).index as int)
    ensures [L03] is_run(old(self).ptr@, old(self).index as int, final(self).index as int)
    loop 0:
    invariant moved(*old(self), *self), mid(*self)
    invariant [L03] forall|k: int| old(self).index <= k < self.index ==> lb(#[trigger] self.ptr@[k])
    decreases self.ptr@.len() - self.index

@fn Lexer::slice_from -> r [L01]
    requires start <= self.index < self.ptr@.len(), bnd(self.ptr@, start as int), bnd(self.ptr@, self.index as int)
    ensures str_is(r, self.ptr@, start as int, self.index as int)
@fn Lexer::slice_source -> r [L01]
    requires start <= end < self.ptr@.len(), bnd(self.ptr@, start as int), bnd(self.ptr@, end as int)
    ensures str_is(r, self.ptr@, start as int, end as int)

@fn Lexer::read_regular_expression -> r [L01,L04]
    requires wf(*old(self)), old(self).index >= 1, old(self).ptr@[old(self).index - 1] == 47, old(self).token_start < old(self).index
    ensures [L01] wf(*final(self)), ended(*old(self), *final(self)), final(self).token != EndOfProgram
    ensures [L01] regex_end(old(self).ptr@, old(self).index as int, false) == -1 ==> final(self).token == UnexpectedEndOfProgram
    ensures [L04] regex_end(old(self).ptr@, old(self).index as int, false) == -2 ==> final(self).token == UnexpectedToken
    ensures [L04] regex_end(old(self).ptr@, old(self).index as int, false) >= 0 ==> {
            &&& final(self).token == LiteralRegEx
            &&& final(self).index == run(old(self).ptr@, regex_end(old(self).ptr@, old(self).index as int, false), 0)
            &&& str_is(r, old(self).ptr@, old(self).index - 1, final(self).index as int) }
    loop 0:
    invariant moved(*old(self), *self), mid(*self), wf(*old(self))
    invariant_except_break [L04] regex_end(self.ptr@, old(self).index as int, false) == regex_end(self.ptr@, self.index as int, in_class)
    ensures regex_end(self.ptr@, old(self).index as int, false) == self.index, self.index > 0, self.ptr@[self.index - 1] < 0x80
    decreases self.ptr@.len() - self.index
    loop 1:
    invariant moved(*old(self), *self), mid(*self), self.ptr@[self.index - 1] < 0x80, self.index > 0
    invariant [L04] run(self.ptr@, regex_end(self.ptr@, old(self).index as int, false), 0) == run(self.ptr@, self.index as int, 0)
    decreases self.ptr@.len() - self.index

@fn Token::is_word -> r
