use vstd::string::*;
pub type Text = Seq<char>;
#[verifier::external_body] pub struct Module<'a> { x: core::marker::PhantomData<&'a u8> }

// what the library gives (units parser, codegen, astgen and errfmt say what that is)
pub uninterp spec fn parsed<'a>(s: Text) -> Result<Module<'a>, Seq<Error>>;
pub uninterp spec fn code_of<'a>(m: Module<'a>, minify: bool) -> Text;
pub uninterp spec fn debug_of<'a>(m: Module<'a>, pretty: bool) -> Text;
pub uninterp spec fn json_of<'a>(m: Module<'a>, pretty: bool) -> Text;
pub uninterp spec fn message(start: int, end: int, source: Text) -> Text;

pub open spec fn note(e: Error, source: Text) -> Text { message(e.start as int, e.end as int, source) }
/// the messages of the first n errors, in order, each on lines of its own
pub open spec fn joined(es: Seq<Error>, n: int, source: Text) -> Text decreases n {
    if n <= 0 { Seq::empty() } else if n == 1 { note(es[0], source) } else { joined(es, n - 1, source) + seq!['\n'] + note(es[n - 1], source) }
}
pub open spec fn join_of(l: Seq<Text>, n: int, by: Text) -> Text decreases n {
    if n <= 0 { Seq::empty() } else if n == 1 { l[0] } else { join_of(l, n - 1, by) + by + l[n - 1] }
}
pub open spec fn heading() -> Text { seq!['E', 'r', 'r', 'o', 'r', ':', ' '] }
pub open spec fn rejection(es: Seq<Error>, source: Text) -> Text { heading() + joined(es, es.len() as int, source) }
pub open spec fn vx_texts(l: Seq<String>) -> Seq<Text> { l.map(|i: int, s: String| s@) }
pub proof fn lemma_joined_to(es: Seq<Error>, l: Seq<Text>, source: Text, n: int)
    requires 0 <= n <= es.len(), es.len() == l.len(), forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] == note(es[i], source)
    ensures joined(es, n, source) == join_of(l, n, seq!['\n'])
    decreases n
{ if n > 1 { lemma_joined_to(es, l, source, n - 1); } }

#[verifier::external_body] pub fn vx_parse<'a>(s: &str) -> (r: Result<Module<'a>, Vec<Error>>)
    ensures match (r, parsed::<'a>(s@)) { (Ok(m), Ok(n)) => m == n, (Err(a), Err(b)) => a@ == b, _ => false } { unimplemented!() }
#[verifier::external_body] pub fn vx_codegen<'a>(m: &Module<'a>, minify: bool) -> (r: String) ensures r@ == code_of(*m, minify) { unimplemented!() }
#[verifier::external_body] pub fn vx_debug<'a>(m: &Module<'a>, pretty: bool) -> (r: String) ensures r@ == debug_of(*m, pretty) { unimplemented!() }
#[verifier::external_body] pub fn vx_json<'a>(m: &Module<'a>, pretty: bool) -> (r: String) ensures r@ == json_of(*m, pretty) { unimplemented!() }
#[verifier::external_body] pub fn vx_owned(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn vx_nth(v: &Vec<Error>, i: usize) -> (r: Error) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
#[verifier::external_body] pub fn vx_join(l: Vec<String>, by: &str) -> (r: String) ensures r@ == join_of(vx_texts(l@), l@.len() as int, by@) { unimplemented!() }
#[verifier::external_body] pub fn vx_headed(s: String) -> (r: String) ensures r@ == heading() + s@ { unimplemented!() }
pub trait VxDisplay { spec fn shown(&self) -> Text; fn vx_display(&self) -> (r: String) ensures r@ == self.shown(); }
impl VxDisplay for ParseError {
    open spec fn shown(&self) -> Text { match *self { ParseError::UnexpectedToken { source, start, end } => message(start as int, end as int, source@), _ => arbitrary() } }
    #[verifier::external_body] fn vx_display(&self) -> (r: String) { unimplemented!() }
}
