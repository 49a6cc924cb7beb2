// ---------------------------------------------------------------------------------------------
// The text: bytes up to and including the terminating NUL.
// ---------------------------------------------------------------------------------------------

/// i is the start of a character (or the terminator).
pub open spec fn bnd(s: Seq<u8>, i: int) -> bool {
    0 <= i < s.len() && !(0x80 <= s[i] < 0xC0)
}

pub open spec fn width(b: u8) -> int {
    if b < 0x80 { 1 } else if b < 0xE0 { 2 } else if b < 0xF0 { 3 } else { 4 }
}

/// s is UTF-8 text followed by its terminator: a NUL that is the only one.
pub open spec fn src_ok(s: Seq<u8>) -> bool {
    &&& 0 < s.len() <= 0xFFFF_FFFF
    &&& s[s.len() - 1] == 0
    &&& forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] s[i] != 0
    &&& bnd(s, 0)
    &&& forall|i: int| 0 < i < s.len() && s[i - 1] < 0x80 ==> #[trigger] bnd(s, i)
    &&& forall|i: int| #![trigger width(s[i])] 0 <= i < s.len() - 1 && s[i] >= 0xC0 ==> {
            &&& i + width(s[i]) < s.len()
            &&& bnd(s, i + width(s[i]))
            &&& forall|k: int| i < k < i + width(s[i]) ==> 0x80 <= #[trigger] s[k] < 0xC0
        }
}

/// A slice handed out: of which text, from where to where.
pub struct Str { pub src: Ghost<Seq<u8>>, pub from: Ghost<int>, pub to: Ghost<int> }

pub open spec fn str_is(q: Str, s: Seq<u8>, a: int, b: int) -> bool {
    q.src@ == s && q.from@ == a && q.to@ == b
}
pub open spec fn str_bytes(q: Str) -> Seq<u8> { q.src@.subrange(q.from@, q.to@) }
/// toolshed's arena: copies the text and ends it with a NUL
#[verifier::external_body] pub struct Arena { x: u8 }
impl Arena {
    #[verifier::external_body] pub fn alloc_str_with_nul<'a>(&'a self, val: Str) -> (r: &'a [u8]) ensures r@ == str_bytes(val).push(0u8) { unimplemented!() }
}
/// A slice of the text s on character boundaries, or an empty constant.
pub open spec fn str_ok(q: Str, s: Seq<u8>) -> bool {
    (q.src@ == s && 0 <= q.from@ <= q.to@ < s.len() && bnd(s, q.from@) && bnd(s, q.to@))
    || (q.src@.len() == 0 && q.from@ == 0 && q.to@ == 0)
}

/// `from_utf8_unchecked(from_raw_parts(p.add(start), len))`: undefined unless within the text and on boundaries.
pub fn vx_slice(p: &[u8], start: usize, len: usize) -> (r: Str)
    requires start + len < p@.len(), bnd(p@, start as int), bnd(p@, start + len),
    ensures str_is(r, p@, start as int, start + len),
{
    Str { src: Ghost(p@), from: Ghost(start as int), to: Ghost(start + len) }
}
pub fn vx_empty() -> (r: Str)
    ensures r.src@.len() == 0, r.from@ == 0, r.to@ == 0,
{
    Str { src: Ghost(Seq::empty()), from: Ghost(0), to: Ghost(0) }
}

/// The character that starts at i.
pub uninterp spec fn char_at(s: Seq<u8>, i: int) -> char;
pub uninterp spec fn alnum(c: char) -> bool;

#[verifier::external_body]
pub fn vx_is_alphanumeric(c: char) -> (r: bool)
    ensures r == alnum(c),
{ c.is_alphanumeric() }

/// `s.chars().next()`
#[verifier::external_body]
pub fn vx_first_char(q: Str) -> (r: Option<char>)
    ensures r matches Some(c) ==> c == char_at(q.src@, q.from@),
        q.from@ < q.to@ ==> r is Some,
{ unimplemented!() }

// ---------------------------------------------------------------------------------------------
// Words
// ---------------------------------------------------------------------------------------------
pub open spec fn digit(b: u8) -> bool { 48 <= b <= 57 }
/// May continue an identifier.
pub open spec fn lb(b: u8) -> bool {
    digit(b) || wstart(b) || b >= 0x80
}
/// ASCII that may start an identifier: letters, $, _, and a backslash.
pub open spec fn wstart(b: u8) -> bool {
    65 <= b <= 90 || 97 <= b <= 122 || b == 36 || b == 95 || b == 92
}
/// A word starts at i.
pub open spec fn word_start(s: Seq<u8>, i: int) -> bool {
    wstart(s[i]) || (s[i] >= 0x80 && alnum(char_at(s, i)))
}
/// s[i..e] is a longest run of identifier characters.
pub open spec fn is_word(s: Seq<u8>, i: int, e: int) -> bool {
    &&& i < e < s.len()
    &&& forall|k: int| i <= k < e ==> lb(#[trigger] s[k])
    &&& !lb(s[e])
}
pub open spec fn is_run(s: Seq<u8>, i: int, e: int) -> bool {
    &&& i <= e < s.len()
    &&& forall|k: int| i <= k < e ==> lb(#[trigger] s[k])
    &&& !lb(s[e])
}

// ---------------------------------------------------------------------------------------------
// Blank space and comments
// ---------------------------------------------------------------------------------------------
pub open spec fn blank(b: u8) -> bool { 1 <= b <= 0x20 }

pub open spec fn line_end(s: Seq<u8>, i: int) -> int decreases s.len() - i {
    if 0 <= i < s.len() - 1 && s[i] != 10 { line_end(s, i + 1) } else { i }
}
/// Behind the first closing mark at or after i, -1 if there is none.
pub open spec fn block_end(s: Seq<u8>, i: int) -> int decreases s.len() - i {
    if !(0 <= i < s.len() - 1) { -1 }
    else if s[i] == 42 && s[i + 1] == 47 { i + 2 }
    else { block_end(s, i + 1) }
}
/// Is there a line break before the closing mark?
pub open spec fn block_brk(s: Seq<u8>, i: int) -> bool decreases s.len() - i {
    if !(0 <= i < s.len() - 1) { false }
    else if s[i] == 42 && s[i + 1] == 47 { false }
    else { s[i] == 10 || block_brk(s, i + 1) }
}
pub open spec fn line_comment(s: Seq<u8>, i: int) -> bool { s[i] == 47 && s[i + 1] == 47 }
pub open spec fn block_comment(s: Seq<u8>, i: int) -> bool { s[i] == 47 && s[i + 1] == 42 }

/// Where the next token starts, at or after i; -1 in front of an unterminated comment.
pub open spec fn skip(s: Seq<u8>, i: int) -> int decreases s.len() - i {
    if !(0 <= i < s.len() - 1) { i }
    else if blank(s[i]) { skip(s, i + 1) }
    else if line_comment(s, i) {
        let e = line_end(s, i + 2);
        if i < e < s.len() { skip(s, e) } else { -1 }
    }
    else if block_comment(s, i) {
        let e = block_end(s, i + 2);
        if i < e < s.len() { skip(s, e) } else { -1 }
    }
    else { i }
}
/// Is there a line break in front of the next token?
pub open spec fn brk(s: Seq<u8>, i: int) -> bool decreases s.len() - i {
    if !(0 <= i < s.len() - 1) { false }
    else if blank(s[i]) { s[i] == 10 || brk(s, i + 1) }
    else if line_comment(s, i) {
        let e = line_end(s, i + 2);
        if i < e < s.len() { brk(s, e) } else { false }
    }
    else if block_comment(s, i) {
        let e = block_end(s, i + 2);
        if i < e < s.len() { block_brk(s, i + 2) || brk(s, e) } else { false }
    }
    else { false }
}

// ---------------------------------------------------------------------------------------------
// Literals
// ---------------------------------------------------------------------------------------------
pub open spec fn in_class(b: u8, c: int) -> bool {
    if c == 2 { b == 48 || b == 49 }
    else if c == 8 { 48 <= b <= 55 }
    else if c == 10 { digit(b) }
    else if c == 16 { digit(b) || 97 <= b <= 102 || 65 <= b <= 70 }
    else { b == 103 || b == 105 || b == 109 || b == 117 || b == 121 } // regular expression flags
}
pub open spec fn run(s: Seq<u8>, i: int, c: int) -> int decreases s.len() - i {
    if 0 <= i < s.len() - 1 && in_class(s[i], c) { run(s, i + 1, c) } else { i }
}
pub open spec fn is_e(b: u8) -> bool { b == 101 || b == 69 }
/// Digits from i on, at least one.
pub open spec fn digits(s: Seq<u8>, i: int, c: int) -> (Token, int) {
    (if run(s, i, c) == i { Token::UnexpectedToken } else if c == 2 { Token::LiteralBinary } else { Token::LiteralNumber }, run(s, i, c))
}
pub open spec fn sci(s: Seq<u8>, i: int) -> (Token, int) {
    if s[i] == 43 || s[i] == 45 { digits(s, i + 1, 10) } else { digits(s, i, 10) }
}
pub open spec fn float(s: Seq<u8>, i: int) -> (Token, int) {
    let d = run(s, i, 10);
    if is_e(s[d]) { sci(s, d + 1) } else { (Token::LiteralNumber, d) }
}
pub open spec fn decimal(s: Seq<u8>, i: int) -> (Token, int) {
    let d = run(s, i, 10);
    if s[d] == 46 { float(s, d + 1) } else if is_e(s[d]) { sci(s, d + 1) } else { (Token::LiteralNumber, d) }
}
/// Token and end of the number that starts with the digit at i.
pub open spec fn number(s: Seq<u8>, i: int) -> (Token, int) {
    if s[i] == 48 && (s[i + 1] == 98 || s[i + 1] == 66) { digits(s, i + 2, 2) }
    else if s[i] == 48 && (s[i + 1] == 111 || s[i + 1] == 79) { digits(s, i + 2, 8) }
    else if s[i] == 48 && (s[i + 1] == 120 || s[i + 1] == 88) { digits(s, i + 2, 16) }
    else { decimal(s, i) }
}
/// Behind the quote q that ends the string, -1 if none does.
pub open spec fn string_end(s: Seq<u8>, i: int, q: u8) -> int decreases s.len() - i {
    if !(0 <= i < s.len() - 1) { -1 }
    else if s[i] == q { i + 1 }
    else if s[i] == 92 { if i + 1 < s.len() - 1 { string_end(s, i + 2, q) } else { -1 } }
    else { string_end(s, i + 1, q) }
}
/// At the backtick or `${` that ends the template chunk, -1 if none does.
pub open spec fn chunk_end(s: Seq<u8>, i: int) -> int decreases s.len() - i {
    if !(0 <= i < s.len() - 1) { -1 }
    else if s[i] == 96 { i }
    else if s[i] == 36 && s[i + 1] == 123 { i }
    else if s[i] == 92 { if i + 1 < s.len() - 1 { chunk_end(s, i + 2) } else { -1 } }
    else { chunk_end(s, i + 1) }
}
/// Behind the slash that ends the body; -1 at the end of the text, -2 at the end of the line.
pub open spec fn regex_end(s: Seq<u8>, i: int, class: bool) -> int decreases s.len() - i {
    if !(0 <= i < s.len() - 1) { -1 }
    else if s[i] == 91 { regex_end(s, i + 1, true) }
    else if s[i] == 93 { regex_end(s, i + 1, false) }
    else if s[i] == 47 { if class { regex_end(s, i + 1, class) } else { i + 1 } }
    else if s[i] == 92 { if i + 1 < s.len() - 1 { regex_end(s, i + 2, class) } else { -1 } }
    else if s[i] == 10 { -2 }
    else { regex_end(s, i + 1, class) }
}

// ---------------------------------------------------------------------------------------------
// The state, and what one step does to it
// ---------------------------------------------------------------------------------------------
pub open spec fn end(l: Lexer) -> int { l.ptr@.len() - 1 }

/// In the midst of a token.
pub open spec fn mid(l: Lexer) -> bool {
    &&& src_ok(l.ptr@)
    &&& l.index < l.ptr@.len()
    &&& l.token_start <= l.index
    &&& bnd(l.ptr@, l.token_start as int)
    &&& l.accessor_start <= l.index
    &&& bnd(l.ptr@, l.accessor_start as int)
    &&& str_ok(l.quasi, l.ptr@)
}
/// Between tokens.
pub open spec fn wf(l: Lexer) -> bool {
    &&& mid(l)
    &&& bnd(l.ptr@, l.index as int)
    &&& (l.token == Token::EndOfProgram ==> l.token_start == l.index && l.index == end(l))
}
/// On a character boundary within the text.
pub open spec fn placed(l: Lexer, p: int) -> bool { 0 <= p <= end(l) && bnd(l.ptr@, p) }
/// Nothing but the position differs.
pub open spec fn moved(o: Lexer, n: Lexer) -> bool {
    n == (Lexer { index: n.index, ..o }) && o.index <= n.index
}
/// Nothing but position and token differ.
pub open spec fn ended(o: Lexer, n: Lexer) -> bool {
    n == (Lexer { index: n.index, token: n.token, ..o }) && o.index <= n.index
}

pub open spec fn dot_word(s: Seq<u8>, p: int) -> bool {
    s[p] == 46 && s[p + 1] != 46 && !digit(s[p + 1])
}

// What the token at p must be. `p` is never negative here, and s[p] no blank and no start of a comment.
pub open spec fn l02(s: Seq<u8>, p: int, t: Token, e: int) -> bool {
    &&& (punct(s, p).1 > 0 ==> t == punct(s, p).0 && e == p + punct(s, p).1)
    &&& ((s[p] == 35 || s[p] == 64 || s[p] == 127) ==> t == Token::UnexpectedToken)
    &&& (s[p] == 46 && s[p + 1] == 46 && s[p + 2] != 46 ==> t == Token::UnexpectedToken)
}
pub open spec fn l03(s: Seq<u8>, p: int, n: Lexer) -> bool {
    &&& (word_start(s, p) ==> is_word(s, p, n.index as int) && n.token == kw(s, p, n.index as int))
    &&& (s[p] >= 0x80 && !word_start(s, p) ==> n.token == Token::UnexpectedToken)
    &&& (dot_word(s, p) ==> accessor(s, p + 1, n))
}
/// The rest of an accessor, behind its dot.
pub open spec fn accessor(s: Seq<u8>, i: int, n: Lexer) -> bool {
    let q = skip(s, i);
    if q < 0 || q >= s.len() - 1 { n.token == Token::UnexpectedEndOfProgram }
    else if word_start(s, q) {
        n.token == Token::Accessor && n.accessor_start == q && is_word(s, q, n.index as int)
    }
    else { n.token == Token::UnexpectedToken }
}
pub open spec fn l04(s: Seq<u8>, p: int, n: Lexer) -> bool {
    &&& (digit(s[p]) ==> (n.token, n.index as int) == number(s, p))
    &&& (s[p] == 46 && digit(s[p + 1]) ==> (n.token, n.index as int) == float(s, p + 1))
    &&& ((s[p] == 34 || s[p] == 39) ==> {
            let e = string_end(s, p + 1, s[p]);
            if e < 0 { n.token == Token::UnexpectedEndOfProgram }
            else { n.token == Token::LiteralString && n.index == e }
        })
    &&& (s[p] == 96 ==> chunk(s, p + 1, n))
}
pub open spec fn chunk(s: Seq<u8>, i: int, n: Lexer) -> bool {
    let e = chunk_end(s, i);
    if e < 0 { n.token == Token::UnexpectedEndOfProgram }
    else if s[e] == 96 { n.token == Token::TemplateClosed && n.index == e + 1 && str_is(n.quasi, s, i, e) }
    else { n.token == Token::TemplateOpen && n.index == e + 2 && str_is(n.quasi, s, i, e) }
}
pub open spec fn l05(s: Seq<u8>, p: int, broken: bool, n: Lexer) -> bool {
    n.asi == (
        if s[p] == 59 { Asi::ExplicitSemicolon }
        else if s[p] == 41 || s[p] == 125 || s[p] == 0 { Asi::ImplicitSemicolon }
        else if broken { Asi::ImplicitSemicolon }
        else { Asi::NoSemicolon })
}
/// The step from a position: i is where it starts, o the state there.
pub open spec fn step01(o: Lexer, n: Lexer) -> bool {
    &&& wf(n)
    &&& n.ptr == o.ptr
    &&& n.token_start >= o.index
    &&& (o.index < end(o) ==> n.index > o.index)
    &&& (n.token != Token::EndOfProgram ==> n.index > n.token_start)
    &&& (o.index == end(o) ==> n.token == Token::EndOfProgram)
    &&& (skip(o.ptr@, o.index as int) < 0 ==> n.token == Token::UnexpectedEndOfProgram)
    &&& (skip(o.ptr@, o.index as int) >= 0 ==> n.token_start == skip(o.ptr@, o.index as int))
    &&& (skip(o.ptr@, o.index as int) == end(o) ==> n.token == Token::EndOfProgram)
}
pub open spec fn step02(o: Lexer, n: Lexer) -> bool {
    let p = skip(o.ptr@, o.index as int);
    0 <= p < end(o) ==> l02(o.ptr@, p, n.token, n.index as int)
}
pub open spec fn step03(o: Lexer, n: Lexer) -> bool {
    let p = skip(o.ptr@, o.index as int);
    0 <= p < end(o) ==> l03(o.ptr@, p, n)
}
pub open spec fn step04(o: Lexer, n: Lexer) -> bool {
    let p = skip(o.ptr@, o.index as int);
    0 <= p < end(o) ==> l04(o.ptr@, p, n)
}
pub open spec fn step05(o: Lexer, n: Lexer) -> bool {
    let p = skip(o.ptr@, o.index as int);
    0 <= p <= end(o) ==> l05(o.ptr@, p, brk(o.ptr@, o.index as int) || o.asi == Asi::ImplicitSemicolon, n)
}
/// What read_token and every handler need.
pub open spec fn ready(l: Lexer) -> bool {
    mid(l) && bnd(l.ptr@, l.index as int) && l.asi != Asi::ExplicitSemicolon
}
