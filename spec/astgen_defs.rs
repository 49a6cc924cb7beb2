// --- what is exported
#[verifier::ext_equal]
pub ghost enum J { Null, Bool(bool), Int(int), Real(f64), Str(Seq<char>), Arr(Seq<J>), Obj(Map<int, J>) }
pub open spec fn named(name: Seq<char>) -> Map<int, J> { Map::empty().insert(key_type(), J::Str(name)) }
pub open spec fn placed(m: Map<int, J>, start: int, end: int) -> J { J::Obj(m.insert(key_start(), J::Int(start)).insert(key_end(), J::Int(end))) }
/// the elements without the holes at the end
pub open spec fn trim(s: Seq<J>) -> Seq<J>
    decreases s.len()
{
    if s.len() > 0 && s.last() is Null { trim(s.drop_last()) } else { s }
}
/// the elements without the hole behind the last comma
pub open spec fn drop_one(s: Seq<J>) -> Seq<J> { if s.len() > 0 && s.last() is Null { s.drop_last() } else { s } }
pub open spec fn first_start<'ast>(l: StatementList<'ast>) -> int { match l { List::Nil => 0, List::Cons(h, _) => h.start as int } }
pub open spec fn last_end<'ast>(l: StatementList<'ast>) -> int
    decreases l
{
    match l { List::Nil => 0, List::Cons(h, tl) => if *tl is Nil { h.end as int } else { last_end(*tl) } }
}
pub open spec fn program<'ast>(body: StatementList<'ast>) -> J {
    placed(named("Program"@).insert(key_body(), J::Arr(l_stmt(body))), first_start(body), last_end(body))
}
pub open spec fn method_kind(k: MethodKind) -> J {
    J::Str(match k { MethodKind::Constructor => "constructor"@, MethodKind::Method => "method"@, MethodKind::Get => "get"@, MethodKind::Set => "set"@ })
}
pub open spec fn declaration_kind(k: DeclarationKind) -> J {
    J::Str(match k { DeclarationKind::Var => "var"@, DeclarationKind::Let => "let"@, DeclarationKind::Const => "const"@ })
}
/// the type of an expression made by an operator
pub open spec fn op_type(op: OperatorKind, prefix: bool) -> Seq<char> {
    if is_assignment(op) { "AssignmentExpression"@ }
    else if op is LogicalAnd || op is LogicalOr { "LogicalExpression"@ }
    else if op is Increment || op is Decrement { "UpdateExpression"@ }
    else if op is New { "NewExpression"@ }
    else if op is Typeof || op is Void || op is Delete { "UnaryExpression"@ }
    else if prefix && (op is Addition || op is Subtraction || op is LogicalNot || op is BitwiseNot) { "UnaryExpression"@ }
    else { "BinaryExpression"@ }
}
/// the names of functions and classes
pub trait JName { spec fn jn(&self) -> J; spec fn jfun() -> Seq<char>; spec fn jclass() -> Seq<char>; }
impl JName for EmptyName {
    open spec fn jn(&self) -> J { J::Null }
    open spec fn jfun() -> Seq<char> { "FunctionExpression"@ }
    open spec fn jclass() -> Seq<char> { "ClassExpression"@ }
}
impl<'ast> JName for OptionalName<'ast> {
    open spec fn jn(&self) -> J { match self.0 { Some(y) => placed(f_ident(y.item), y.start as int, y.end as int), None => J::Null } }
    open spec fn jfun() -> Seq<char> { "FunctionExpression"@ }
    open spec fn jclass() -> Seq<char> { "ClassExpression"@ }
}
impl<'ast> JName for MandatoryName<'ast> {
    open spec fn jn(&self) -> J { placed(f_ident(self.0.item), self.0.start as int, self.0.end as int) }
    open spec fn jfun() -> Seq<char> { "FunctionDeclaration"@ }
    open spec fn jclass() -> Seq<char> { "ClassDeclaration"@ }
}

// --- text, by bytes
pub uninterp spec fn text_length(s: Seq<char>) -> nat;
pub open spec fn text_len(s: Seq<char>) -> int { text_length(s) as int }
pub uninterp spec fn text_sub(s: Seq<char>, a: int, b: int) -> Seq<char>;
pub uninterp spec fn text_byte(s: Seq<char>, i: int) -> u8;
/// no character spans this place
pub uninterp spec fn text_cut(s: Seq<char>, i: int) -> bool;
#[verifier::external_body] pub fn vx_len(s: &str) -> (r: usize) ensures r == text_len(s@) { s.len() }
#[verifier::external_body] pub fn vx_sub<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str)
    requires a <= b <= text_len(s@), text_cut(s@, a as int), text_cut(s@, b as int)
    ensures r@ == text_sub(s@, a as int, b as int)
{ &s[a..b] }
#[verifier::external_body] pub fn vx_byte(s: &str, i: usize) -> (r: u8) requires i < text_len(s@) ensures r == text_byte(s@, i as int) { s.as_bytes()[i] }
#[verifier::external_body] pub fn vx_same(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i <= text_len(s) ==> #[trigger] text_cut(s, i) }

// --- numbers
pub open spec fn digit_of(c: char) -> int {
    if '0' <= c <= '9' { c as int - '0' as int } else if 'a' <= c <= 'z' { c as int - 'a' as int + 10 } else if 'A' <= c <= 'Z' { c as int - 'A' as int + 10 } else { 99 }
}
pub open spec fn digits_ok(s: Seq<char>, radix: int) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> digit_of(#[trigger] s[i]) < radix }
pub open spec fn digits_val(s: Seq<char>, radix: int) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { digits_val(s.drop_last(), radix) * radix + digit_of(s.last()) }
}
/// the float the digits add up to
pub uninterp spec fn fold_value(s: Seq<char>, radix: int) -> f64;
/// the float that is written here
pub uninterp spec fn f64_value(s: Seq<char>) -> f64;
pub uninterp spec fn float_text(s: Seq<char>) -> bool;
pub open spec fn integer(s: Seq<char>, radix: int) -> J {
    if digits_val(s, radix) <= i64::MAX { J::Int(digits_val(s, radix)) } else { J::Real(fold_value(s, radix)) }
}
#[verifier::external_body] pub fn vx_parse(s: &str, radix: u32) -> (r: Result<i64, ()>)
    requires digits_ok(s@, radix as int)
    ensures r is Ok <==> digits_val(s@, radix as int) <= i64::MAX, r is Ok ==> r->Ok_0 == digits_val(s@, radix as int)
{ i64::from_str_radix(s, radix).map_err(|_| ()) }
#[verifier::external_body] pub fn vx_fold(s: &str, radix: u32) -> (r: f64) ensures r == fold_value(s@, radix as int) { unimplemented!() }
#[verifier::external_body] pub fn vx_f64(s: &str) -> (r: f64) requires float_text(s@) ensures r == f64_value(s@) { s.parse().unwrap() }
pub open spec fn float_byte(b: u8) -> bool { b == 0x2e || b == 0x65 || b == 0x45 }
pub open spec fn float_mark(s: Seq<char>) -> bool { exists|i: int| 0 <= i < text_len(s) && float_byte(#[trigger] text_byte(s, i)) }
pub open spec fn prefixed(s: Seq<char>, a: Seq<char>, b: Seq<char>) -> bool { text_len(s) > 2 && (text_sub(s, 0, 2) == a || text_sub(s, 0, 2) == b) }
pub open spec fn number_value(s: Seq<char>) -> J {
    if prefixed(s, "0x"@, "0X"@) { integer(text_sub(s, 2, text_len(s)), 16) }
    else if prefixed(s, "0o"@, "0O"@) { integer(text_sub(s, 2, text_len(s)), 8) }
    else if float_mark(s) || text_len(s) > 18 { J::Real(f64_value(s)) }
    else { integer(s, 10) }
}
pub open spec fn number_text(s: Seq<char>) -> bool {
    &&& ascii(s)
    &&& if prefixed(s, "0x"@, "0X"@) { digits_ok(text_sub(s, 2, text_len(s)), 16) }
        else if prefixed(s, "0o"@, "0O"@) { digits_ok(text_sub(s, 2, text_len(s)), 8) }
        else if float_mark(s) || text_len(s) > 18 { float_text(s) }
        else { digits_ok(s, 10) }
}
pub open spec fn binary_text(s: Seq<char>) -> bool { ascii(s) && text_len(s) > 2 && digits_ok(text_sub(s, 2, text_len(s)), 2) }
pub open spec fn string_text(s: Seq<char>) -> bool { text_len(s) >= 2 && text_cut(s, 1) && text_cut(s, text_len(s) - 1) }
/// the last slash before n
pub open spec fn slash_before(s: Seq<char>, n: int) -> int
    decreases n
{
    if n <= 0 { -1 } else if text_sub(s, n - 1, n) == "/"@ { n - 1 } else { slash_before(s, n - 1) }
}
pub open spec fn regex_text(s: Seq<char>) -> bool {
    let p = slash_before(s, text_len(s));
    1 <= p && text_cut(s, 1) && forall|i: int| p <= i <= text_len(s) ==> #[trigger] text_cut(s, i)
}
pub open spec fn regex_value(s: Seq<char>) -> J {
    let p = slash_before(s, text_len(s));
    J::Obj(Map::empty().insert(key_pattern(), J::Str(text_sub(s, 1, p))).insert(key_flags(), J::Str(text_sub(s, p + 1, text_len(s)))))
}
pub proof fn lemma_slash_lt(s: Seq<char>, n: int)
    requires 0 <= n
    ensures slash_before(s, n) < n
    decreases n
{
    if n > 0 { lemma_slash_lt(s, n - 1); }
}

// --- serde
/// what is exported of a value, and what the exporter assumes of it
pub trait Js { spec fn js(&self) -> J; spec fn ok(&self) -> bool; }
/// the same of the part of a node without its place: the fields
pub trait JLoc { spec fn jf(&self) -> Map<int, J>; spec fn okl(&self) -> bool; }
pub trait Serialize : Js {
    fn serialize(&self, serializer: Ser) -> (ret: Result<Json, SerError>)
        requires self.ok()
        ensures ret is Ok, ret->Ok_0@ =~~= self.js();
}
pub struct SerError;
pub struct Ser;
#[verifier::external_body] pub struct Json { x: u8 }
#[verifier::external_body] pub struct Struct { x: u8 }
#[verifier::external_body] pub struct SeqSer { x: u8 }
impl View for Json { type V = J; uninterp spec fn view(&self) -> J; }
impl View for Struct { type V = Map<int, J>; uninterp spec fn view(&self) -> Map<int, J>; }
impl View for SeqSer { type V = Seq<J>; uninterp spec fn view(&self) -> Seq<J>; }
impl Ser {
    #[verifier::external_body] pub fn serialize_struct(self, name: &'static str, n: usize) -> (r: Result<Struct, SerError>) ensures r is Ok, r->Ok_0@ == Map::<int, J>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn serialize_seq(self, n: Option<usize>) -> (r: Result<SeqSer, SerError>) ensures r is Ok, r->Ok_0@ == Seq::<J>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn serialize_some<T: Js + ?Sized>(self, v: &T) -> (r: Result<Json, SerError>) requires v.ok() ensures r is Ok, r->Ok_0@ == v.js() { unimplemented!() }
    #[verifier::external_body] pub fn serialize_none(self) -> (r: Result<Json, SerError>) ensures r is Ok, r->Ok_0@ == J::Null { unimplemented!() }
    #[verifier::external_body] pub fn serialize_str(self, s: &str) -> (r: Result<Json, SerError>) ensures r is Ok, r->Ok_0@ == J::Str(s@) { unimplemented!() }
}
impl Struct {
    #[verifier::external_body] pub fn serialize_field<T: Js + ?Sized>(&mut self, key: u128, v: &T) -> (r: Result<(), SerError>)
        requires v.ok()
        ensures r is Ok, final(self)@ == old(self)@.insert(key as int, v.js())
    { unimplemented!() }
    #[verifier::external_body] pub fn end(self) -> (r: Result<Json, SerError>) ensures r is Ok, r->Ok_0@ == J::Obj(self@) { unimplemented!() }
}
impl SeqSer {
    #[verifier::external_body] pub fn serialize_element<T: Js + ?Sized>(&mut self, v: &T) -> (r: Result<(), SerError>)
        requires v.ok()
        ensures r is Ok, final(self)@ == old(self)@.push(v.js())
    { unimplemented!() }
    #[verifier::external_body] pub fn end(self) -> (r: Result<Json, SerError>) ensures r is Ok, r->Ok_0@ == J::Arr(self@) { unimplemented!() }
}
/// `r.map(move |_| s)`
pub fn vx_then(r: Result<(), SerError>, s: Struct) -> (ret: Result<Struct, SerError>)
    ensures r is Ok ==> ret == Ok::<Struct, SerError>(s), r is Err ==> ret is Err
{
    match r { Ok(_) => Ok(s), Err(e) => Err(e) }
}
pub open spec fn list_last<'ast, T>(l: List<'ast, T>) -> Option<&'ast T>
    decreases l
{
    match l { List::Nil => None, List::Cons(h, tl) => if *tl is Nil { Some(h) } else { list_last(*tl) } }
}
impl<'ast, T> List<'ast, T> {
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'ast T>)
        ensures match *old(self) { List::Nil => r is None && *final(self) == *old(self), List::Cons(h, tl) => r == Some(h) && *final(self) == *tl }
    { let l = *self; match l { List::Nil => None, List::Cons(h, tl) => { *self = *tl; Some(h) } } }
    #[verifier::external_body] pub fn last(self) -> (r: Option<&'ast T>) ensures r == list_last(self) { unimplemented!() }
}
pub proof fn lemma_last_end<'ast>(l: StatementList<'ast>)
    ensures last_end(l) == (match list_last(l) { Some(n) => n.end as int, None => 0 }),
        l is Cons ==> (match list_last(*(l->Cons_1)) { Some(n) => last_end(l) == n.end as int, None => *(l->Cons_1) is Nil && last_end(l) == l->Cons_0.end as int })
    decreases l
{
    match l { List::Nil => {}, List::Cons(h, tl) => { lemma_last_end(*tl); assert(*tl is Nil ==> list_last(*tl) is None); } }
}
/// the elements of an array, holes as `None`
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Holes<T> { v: Vec<Option<T>> }
impl<T> View for Holes<T> { type V = Seq<J>; uninterp spec fn view(&self) -> Seq<J>; }
impl<T: Js> Holes<T> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<J>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, x: Option<T>)
        requires x.ok(), x is Some ==> !(x.js() is Null)
        ensures final(self)@ == old(self)@.push(x.js())
    { unimplemented!() }
    #[verifier::external_body] pub fn pop(&mut self) -> (r: Option<Option<T>>)
        ensures old(self)@.len() > 0 ==> final(self)@ == old(self)@.drop_last(), old(self)@.len() == 0 ==> final(self)@ == old(self)@
    { unimplemented!() }
    #[verifier::external_body] pub fn last(&self) -> (r: Option<&Option<T>>)
        ensures r is None <==> self@.len() == 0, r is Some ==> (*(r->Some_0) is None <==> self@.last() is Null)
    { unimplemented!() }
}
impl<T> Js for Holes<T> { open spec fn js(&self) -> J { J::Arr(self@) } open spec fn ok(&self) -> bool { true } }
impl<T> Serialize for Holes<T> {
    #[verifier::external_body] fn serialize(&self, serializer: Ser) -> (ret: Result<Json, SerError>) { unimplemented!() }
}
impl<T: Js> Js for Option<T> {
    open spec fn js(&self) -> J { match *self { Some(x) => x.js(), None => J::Null } }
    open spec fn ok(&self) -> bool { match *self { Some(x) => x.ok(), None => true } }
}
impl<T: Serialize> Serialize for Option<T> {
    #[verifier::external_body] fn serialize(&self, serializer: Ser) -> (ret: Result<Json, SerError>) { unimplemented!() }
}
pub fn vx_void<'ast>(x: &Expression<'ast>) -> (r: bool) ensures r == (*x is Void) { match *x { Expression::Void => true, _ => false } }
pub fn vx_pvoid<'ast>(x: &Pattern<'ast>) -> (r: bool) ensures r == (*x is Void) { match *x { Pattern::Void => true, _ => false } }
impl<T> Loc<T> {
    pub fn new(start: u32, end: u32, item: T) -> (r: Self) ensures r == (Loc { start, end, item }) { Loc { start, end, item } }
}
impl<'a, 'ast, T: JLoc> Js for &'a &'ast Loc<T> {
    open spec fn js(&self) -> J { (**self).js() }
    open spec fn ok(&self) -> bool { (**self).ok() }
}
impl<'a, 'ast, T: SerializeInLoc> Serialize for &'a &'ast Loc<T> {
    #[verifier::external_body] fn serialize(&self, serializer: Ser) -> (ret: Result<Json, SerError>) { unimplemented!() }
}
