// text: the bytes of its UTF-8 form
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Str { x: u8 }
impl Str {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn vx_slice(&self, a: usize, b: usize) -> (r: Str)
        requires a <= b <= self@.len(), boundary(self@, a as int), boundary(self@, b as int)
        ensures r@ == self@.subrange(a as int, b as int) { unimplemented!() }
    #[verifier::external_body] pub fn chars(&self) -> (r: VxChars) ensures r.n == chars(self@) { unimplemented!() }
    #[verifier::external_body] pub fn lines(&self) -> (r: VxIter<Str>) ensures texts(r@) == lines(self@) { unimplemented!() }
    #[verifier::external_body] pub fn split(&self, c: char) -> (r: VxIter<Str>) ensures (c as u32) < 128 ==> texts(r@) == split(self@, c as u8) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_empty() -> (r: Str) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
/// no text is longer than half of the address space
#[verifier::external_body] pub broadcast proof fn axiom_len(s: Str) ensures #[trigger] s@.len() <= usize::MAX / 2 {}
pub struct VxChars { pub n: Ghost<nat> }
impl VxChars { #[verifier::external_body] pub fn count(self) -> (r: usize) ensures r == self.n@ { unimplemented!() } }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct VxIter<T> { x: Vec<T> }
impl<T> VxIter<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body] pub fn enumerate(self) -> (r: VxIter<(usize, T)>)
        ensures r@.len() == self@.len(), r@.len() <= usize::MAX, forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (i as usize, self@[i]) { unimplemented!() }
    #[verifier::external_body] pub fn last(self) -> (r: Option<T>) ensures r == (if self@.len() == 0 { None } else { Some(self@.last()) }) { unimplemented!() }
    #[verifier::external_body] pub fn skip_while<F: Fn(&T) -> bool>(self, f: F) -> (r: VxIter<T>)
        requires forall|x: &T| f.requires((x,))
        ensures skipped(self@, r@, f, self@.len() - r@.len()) { unimplemented!() }
    #[verifier::external_body] pub fn take_while<F: Fn(&T) -> bool>(self, f: F) -> (r: VxIter<T>)
        requires forall|x: &T| f.requires((x,))
        ensures taken(self@, r@, f, r@.len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn vx_next(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.subrange(1, old(self)@.len() as int) { unimplemented!() }
}
// (what holds of the first and the last element is said once more, for the solver to see)
pub open spec fn skipped<T, F: Fn(&T) -> bool>(s: Seq<T>, r: Seq<T>, f: F, k: int) -> bool {
    0 <= k <= s.len() && (forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == s[k + i]) && (forall|i: int| 0 <= i < k ==> f.ensures((&#[trigger] s[i],), true)) && (k < s.len() ==> f.ensures((&s[k],), false))
        && (k > 0 ==> f.ensures((&s[k - 1],), true))
}
pub open spec fn taken<T, F: Fn(&T) -> bool>(s: Seq<T>, r: Seq<T>, f: F, k: int) -> bool {
    0 <= k <= s.len() && (forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == s[i]) && (forall|i: int| 0 <= i < k ==> f.ensures((&#[trigger] s[i],), true)) && (k < s.len() ==> f.ensures((&s[k],), false))
        && (k > 0 ==> f.ensures((&s[k - 1],), true))
}
pub open spec fn sp_sat(a: usize, b: usize) -> usize { if a < b { 0usize } else { (a - b) as usize } }
#[verifier::when_used_as_spec(sp_sat)]
pub fn vx_sat(a: usize, b: usize) -> (r: usize) ensures r == sp_sat(a, b) { if a < b { 0 } else { a - b } }

// formatted output
pub struct FmtError {}
pub type FmtResult = Result<(), FmtError>;
pub struct Fmt { pub out: Ghost<Seq<u8>> }
pub trait VxShow { spec fn show(&self, w: int) -> Seq<u8>; }
impl VxShow for usize { open spec fn show(&self, w: int) -> Seq<u8> { padded(dec(*self as nat), w) } }
impl VxShow for Str { open spec fn show(&self, w: int) -> Seq<u8> { self@ + blanks(w - chars(self@)) } }
impl Fmt {
    #[verifier::external_body] pub fn vx_byte(&mut self, b: u8) ensures final(self).out@ == old(self).out@.push(b) { unimplemented!() }
    #[verifier::external_body] pub fn vx_arg<T: VxShow>(&mut self, x: &T, w: usize) ensures final(self).out@ == old(self).out@ + x.show(w as int) { unimplemented!() }
    #[verifier::external_body] pub fn vx_done(&mut self) -> (r: FmtResult) ensures r is Ok ==> final(self).out@ == old(self).out@ { unimplemented!() }
}

pub open spec fn boundary(s: Seq<u8>, i: int) -> bool { i == 0 || i == s.len() || (0 <= i < s.len() && first_byte(s[i])) }
pub open spec fn first_byte(b: u8) -> bool { b < 128 || b >= 192 }
/// the number of characters
pub open spec fn chars(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { chars(s.drop_last()) + if first_byte(s.last()) { 1nat } else { 0nat } } }
/// the pieces of s between the bytes c
pub open spec fn split(s: Seq<u8>, c: u8) -> Seq<Seq<u8>> decreases s.len() {
    if s.len() == 0 { seq![Seq::empty()] } else {
        let p = split(s.drop_last(), c);
        if s.last() == c { p.push(Seq::empty()) } else { p.drop_last().push(p.last().push(s.last())) }
    }
}
pub open spec fn strip(l: Seq<u8>) -> Seq<u8> { if l.len() > 0 && l.last() == 13 { l.drop_last() } else { l } }
/// the lines of s: a final line break starts no line, and a carriage return before a line break is a part of it
pub open spec fn lines(s: Seq<u8>) -> Seq<Seq<u8>> {
    let p = split(s, 10);
    Seq::new(if p.last().len() == 0 { (p.len() - 1) as nat } else { p.len() }, |i: int| if i < p.len() - 1 { strip(p[i]) } else { p[i] })
}
pub open spec fn texts(q: Seq<Str>) -> Seq<Seq<u8>> { Seq::new(q.len(), |i: int| q[i]@) }
/// the number of line breaks in s, and what follows the last of them
pub open spec fn breaks(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { breaks(s.drop_last()) + if s.last() == 10 { 1nat } else { 0nat } } }
pub open spec fn tail(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() == 0 || s.last() == 10 { Seq::empty() } else { tail(s.drop_last()).push(s.last()) } }
pub open spec fn dec(n: nat) -> Seq<u8> decreases n { if n < 10 { seq![(48 + n) as u8] } else { dec(n / 10).push((48 + n % 10) as u8) } }
pub open spec fn digits(n: nat) -> nat decreases n { if n == 0 { 0 } else { 1 + digits(n / 10) } }
pub open spec fn blanks(n: int) -> Seq<u8> { Seq::new((if n < 0 { 0 } else { n }) as nat, |i: int| 32u8) }
pub open spec fn padded(s: Seq<u8>, w: int) -> Seq<u8> { blanks(w - s.len()) + s }

// the message
pub open spec fn located(s: Seq<u8>, start: int, end: int) -> bool { 0 <= start <= end <= s.len() && boundary(s, start) && boundary(s, end) }
pub open spec fn row(s: Seq<u8>, start: int) -> int { breaks(s.subrange(0, start)) as int }
pub open spec fn col(s: Seq<u8>, start: int) -> int { chars(tail(s.subrange(0, start))) as int }
/// w is wide enough for the number of the line n, and w + 2 for those of the lines around it
pub open spec fn wide(w: int, n: int) -> bool { w >= dec((n + 1) as nat).len() && w + 2 >= dec((n + 3) as nat).len() }
pub open spec fn from(n: int) -> int { if n < 2 { 0 } else { n - 2 } }
pub open spec fn to(s: Seq<u8>, n: int) -> int { if n + 3 < lines(s).len() { n + 3 } else { lines(s).len() as int } }
// (each of the following is what stands in the output o once something more is written to it)
pub open spec fn num(o: Seq<u8>, n: int, w: int) -> Seq<u8> { o + padded(dec(n as nat), w) }
pub open spec fn text(o: Seq<u8>, s: Seq<u8>) -> Seq<u8> { o + (s + blanks(0 - chars(s))) }
pub open spec fn times(o: Seq<u8>, b: u8, n: int) -> Seq<u8> decreases n { if n <= 0 { o } else { times(o, b, n - 1).push(b) } }
pub open spec fn bar(o: Seq<u8>) -> Seq<u8> { o.push(32u8).push(124u8).push(32u8) }
/// line i, with the marks under the line of the token
pub open spec fn shown(o: Seq<u8>, s: Seq<u8>, start: int, end: int, w: int, i: int) -> Seq<u8> {
    if i == row(s, start) { marks(marked_line(o, s, start, w, i), s, start, end, w).push(10u8) } else { text(bar(num(o, i + 1, w + 2)), lines(s)[i]).push(10u8) }
}
/// "> 7 | text"
pub open spec fn marked_line(o: Seq<u8>, s: Seq<u8>, start: int, w: int, i: int) -> Seq<u8> { text(bar(num(o.push(62u8).push(32u8), i + 1, w)), lines(s)[i]).push(10u8) }
/// "    |   ^^^"
pub open spec fn marks(o: Seq<u8>, s: Seq<u8>, start: int, end: int, w: int) -> Seq<u8> { times(times(bar(times(o, 32, w).push(32u8).push(32u8)), 32, col(s, start)), 94, chars(s.subrange(start, end)) as int) }
pub open spec fn shown_to(o: Seq<u8>, s: Seq<u8>, start: int, end: int, w: int, k: int) -> Seq<u8> decreases k {
    if k <= from(row(s, start)) || k < 1 { o } else { shown(shown_to(o, s, start, end, w, k - 1), s, start, end, w, k - 1) }
}
pub open spec fn at(o: Seq<u8>) -> Seq<u8> { o.push(85u8).push(110u8).push(101u8).push(120u8).push(112u8).push(101u8).push(99u8).push(116u8).push(101u8).push(100u8).push(32u8).push(116u8).push(111u8).push(107u8).push(101u8).push(110u8).push(32u8).push(97u8).push(116u8).push(32u8) }
pub open spec fn eop(o: Seq<u8>) -> Seq<u8> { o.push(85u8).push(110u8).push(101u8).push(120u8).push(112u8).push(101u8).push(99u8).push(116u8).push(101u8).push(100u8).push(32u8).push(101u8).push(110u8).push(100u8).push(32u8).push(111u8).push(102u8).push(32u8).push(112u8).push(114u8).push(111u8).push(103u8).push(114u8).push(97u8).push(109u8) }
pub open spec fn message(o: Seq<u8>, e: ParseError, w: int) -> Seq<u8> {
    match e {
        ParseError::UnexpectedEndOfProgram => eop(o),
        ParseError::UnexpectedToken { source, start, end } => shown_to(head(o, source@, start as int), source@, start as int, end as int, w, to(source@, row(source@, start as int))),
    }
}
/// w fits the line numbers of the message
pub open spec fn fits(e: ParseError, w: int) -> bool { match e { ParseError::UnexpectedToken { source, start, end } => wide(w, row(source@, start as int)), _ => true } }
pub open spec fn head(o: Seq<u8>, s: Seq<u8>, start: int) -> Seq<u8> { num(num(at(o), row(s, start) + 1, 0).push(58u8), col(s, start) + 1, 0).push(10u8).push(10u8) }

// what the specification amounts to
pub proof fn lemma_digits(n: nat) ensures digits(n) <= n, n > 0 ==> digits(n) == dec(n).len() decreases n {
    if n > 0 { lemma_digits(n / 10); }
}
pub proof fn lemma_dec_mono(a: nat, b: nat) requires a <= b ensures dec(a).len() <= dec(b).len(), dec(a).len() >= 1 decreases b {
    if a >= 10 { lemma_dec_mono(a / 10, b / 10); } else { lemma_dec_pos(b); }
}
pub proof fn lemma_dec_pos(b: nat) ensures dec(b).len() >= 1 decreases b { if b >= 10 { lemma_dec_pos(b / 10); } }
/// the row is the number of the line the token starts on, and that line starts with what precedes the token on it
pub proof fn lemma_row(s: Seq<u8>, start: int)
    requires 0 <= start <= s.len()
    ensures split(s, 10).len() > row(s, start), starts_with(split(s, 10)[row(s, start)], tail(s.subrange(0, start))),
        start == s.len() ==> split(s, 10).len() == row(s, start) + 1 && split(s, 10).last() == tail(s.subrange(0, start)),
        start < s.len() ==> split(s, 10).len() > row(s, start) + 1 || split(s, 10)[row(s, start)].len() > tail(s.subrange(0, start)).len(),
    decreases s.len()
{
    if s.len() == 0 { assert(s.subrange(0, 0) =~= s); }
    else if start == s.len() {
        assert(s.subrange(0, start) =~= s);
        lemma_row(s.drop_last(), start - 1);
        assert(s.drop_last().subrange(0, start - 1) =~= s.drop_last());
    } else {
        lemma_row(s.drop_last(), start);
        assert(s.drop_last().subrange(0, start) =~= s.subrange(0, start));
        if start == s.len() - 1 { assert(s[start] == s.last()); }
    }
}
pub open spec fn starts_with(l: Seq<u8>, p: Seq<u8>) -> bool { p.len() <= l.len() && l.subrange(0, p.len() as int) =~= p }
/// the line of the token is shown (an empty token after the last line break has no line)
pub proof fn lemma_displayed(s: Seq<u8>, start: int, end: int)
    requires located(s, start, end), start < s.len() || tail(s).len() > 0
    ensures from(row(s, start)) <= row(s, start) < to(s, row(s, start))
{
    lemma_row(s, start);
    let p = split(s, 10);
    if row(s, start) == p.len() - 1 { assert(p[row(s, start)] == p.last()); }
    if start == s.len() { assert(s.subrange(0, start) =~= s); }
}
/// every shown line has its text at the same distance from the left
pub proof fn lemma_aligned(n: int, w: int, i: int)
    requires 0 <= i < n + 3, wide(w, n)
    ensures padded(dec((i + 1) as nat), w + 2).len() == w + 2, i == n ==> padded(dec((i + 1) as nat), w).len() == w
{
    lemma_dec_mono((i + 1) as nat, (n + 3) as nat);
}
pub proof fn lemma_split(s: Seq<u8>)
    ensures split(s, 10).len() == breaks(s) + 1, split(s, 10).last() == tail(s), breaks(s) <= s.len(), chars(s) <= s.len(), chars(tail(s)) <= s.len(), tail(s).len() <= s.len()
    decreases s.len()
{ if s.len() > 0 { lemma_split(s.drop_last()); assert(tail(s).len() > 0 ==> tail(s).drop_last() =~= tail(s.drop_last())); } }
