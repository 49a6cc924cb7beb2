// ---- what the parser stands on: tokens, lists, nodes, strings

pub struct Tok<'a> { pub kind: Token, pub text: &'a str, pub acc: &'a str, pub quasi: &'a str, pub nl: bool, pub mode: Mode }
pub enum Mode { Plain, Regex, Quasi }

pub struct Text { pub t: Vec<u8> }

#[verifier::external_body] pub fn vx_panic() -> ! { unimplemented!() }

#[verifier::reject_recursive_types_in_ground_variants(T)]
pub struct Node<'ast, T> { pub item: &'ast T }
impl<'ast, T> Copy for Node<'ast, T> {}
impl<'ast, T> Clone for Node<'ast, T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<'ast, T> Node<'ast, T> {
    pub fn new(ptr: &'ast Loc<T>) -> (r: Self)
        requires placed(ptr.start), placed(ptr.end)
        ensures r == nd(ptr.item)
    { Node { item: &ptr.item } }
    // (a node is only made by new)
    #[verifier::external_body] pub fn vx_start(&self) -> (r: u32) ensures placed(r) { unimplemented!() }
    #[verifier::external_body] pub fn vx_end(&self) -> (r: u32) ensures placed(r) { unimplemented!() }
}
/// A position in the text: on a character boundary, not beyond its end
pub open spec fn placed(p: u32) -> bool { p == 0 || of_token(p) }
/// (the start or end of one of its tokens: Lexer::start, Lexer::end in unit lexer)
pub uninterp spec fn of_token(p: u32) -> bool;
pub open spec fn nd<'ast, T>(t: T) -> Node<'ast, T> { Node { item: &t } }

#[verifier::accept_recursive_types(T)]
pub struct List<'ast, T> { pub q: Ghost<Seq<T>>, pub p: core::marker::PhantomData<&'ast T> }
pub open spec fn lst<'ast, T>(q: Seq<T>) -> List<'ast, T> { List { q: Ghost(q), p: core::marker::PhantomData } }
impl<'ast, T> Copy for List<'ast, T> {}
impl<'ast, T> Clone for List<'ast, T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<'ast, T> List<'ast, T> {
    #[verifier::external_body] pub fn empty() -> (r: Self) ensures r == lst::<'ast, T>(Seq::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn from(arena: &'ast Arena, value: T) -> (r: Self) ensures r == lst::<'ast, T>(Seq::empty().push(value)) { unimplemented!() }
    #[verifier::external_body] pub fn iter(&self) -> (r: ListIter<'ast, T>) ensures r.q@ == self.q@, r.k@ == 0 { unimplemented!() }
    #[verifier::external_body] pub fn into_unsafe(self) -> (r: UnsafeList) ensures unsafe_of::<Self>(r) == self { unimplemented!() }
}
#[verifier::accept_recursive_types(T)]
pub struct ListIter<'ast, T> { pub q: Ghost<Seq<T>>, pub k: Ghost<int>, pub p: core::marker::PhantomData<&'ast T> }
impl<'ast, T> ListIter<'ast, T> {
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<T>)
        ensures final(self).q@ == old(self).q@,
            old(self).k@ < old(self).q@.len() ==> r == Some(old(self).q@[old(self).k@]) && final(self).k@ == old(self).k@ + 1,
            old(self).k@ >= old(self).q@.len() ==> r is None && final(self).k@ == old(self).k@,
    { unimplemented!() }
}
#[verifier::accept_recursive_types(T)]
pub struct ListBuilder<'ast, T> { pub q: Ghost<Seq<T>>, pub p: core::marker::PhantomData<&'ast T> }
#[verifier::accept_recursive_types(T)]
pub struct GrowableList<'ast, T> { pub q: Ghost<Seq<T>>, pub p: core::marker::PhantomData<&'ast T> }
impl<'ast, T> ListBuilder<'ast, T> {
    #[verifier::external_body] pub fn new(arena: &'ast Arena, first: T) -> (r: Self) ensures r.q@ == Seq::empty().push(first) { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, arena: &'ast Arena, x: T) ensures final(self).q@ == old(self).q@.push(x) { unimplemented!() }
    #[verifier::external_body] pub fn as_list(&self) -> (r: List<'ast, T>) ensures r == lst::<'ast, T>(self.q@) { unimplemented!() }
}
impl<'ast, T> GrowableList<'ast, T> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.q@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, arena: &'ast Arena, x: T) ensures final(self).q@ == old(self).q@.push(x) { unimplemented!() }
    #[verifier::external_body] pub fn as_list(&self) -> (r: List<'ast, T>) ensures r == lst::<'ast, T>(self.q@) { unimplemented!() }
}
use core::marker::PhantomData;
#[derive(Clone, Copy)] pub struct UnsafeList { pub p: usize }
pub uninterp spec fn unsafe_of<T>(u: UnsafeList) -> T;

pub struct Arena { pub p: usize }
impl Arena {
    #[verifier::external_body] pub fn new() -> Self { unimplemented!() }
    #[verifier::external_body] pub fn alloc<'a, T>(&'a self, v: T) -> (r: &'a T) ensures *r == v { unimplemented!() }
}
impl UnsafeList {
    #[verifier::external_body] pub fn into_list<T>(self) -> (r: T) ensures r == unsafe_of::<T>(self) { unimplemented!() }
}

pub trait VxFrom<T>: Sized {
    spec fn mk(node: T) -> Self;
    fn vx_from(node: T) -> (r: Self) ensures r == Self::mk(node);
}
impl<T> VxFrom<T> for T {
    open spec fn mk(node: T) -> T { node }
    fn vx_from(node: T) -> T { node }
}

// strings: only told apart
pub uninterp spec fn lit(n: int) -> &'static str;
pub uninterp spec fn unquote<'a>(s: &'a str) -> &'a str;
#[verifier::external_body] pub fn vx_lit(n: u128) -> (r: &'static str) ensures r == lit(n as int) { unimplemented!() }
#[verifier::external_body] pub fn vx_eq(a: &str, b: &str) -> (r: bool) ensures r == (a == b) { unimplemented!() }
#[verifier::external_body] pub fn vx_unquote<'a>(s: &'a str) -> (r: &'a str) requires slen(s) >= 2 ensures r == unquote(s) { unimplemented!() }

// The lexer, as the sequence of tokens it will be asked for. Reading a token again in another mode (a
// regular expression after `/`, the next part of a template after `}`) is a step of its own. Unit lexer
// shows what the tokens are; here they are given, and it is given that there is an end to them.
pub struct Lexer<'ast> { pub s: Ghost<Seq<Tok<'ast>>>, pub i: Ghost<int> }
pub open spec fn eop<'a>() -> Tok<'a> { Tok { kind: Token::EndOfProgram, text: lit(0), acc: lit(0), quasi: lit(0), nl: false, mode: Mode::Plain } }
pub open spec fn at<'a>(s: Seq<Tok<'a>>, i: int) -> Tok<'a> { if 0 <= i < s.len() { s[i] } else { eop() } }
pub open spec fn rem<'a>(s: Seq<Tok<'a>>, i: int) -> int { if i < s.len() { s.len() - i } else { 0 } }
pub open spec fn plain<'a>(s: Seq<Tok<'a>>, i: int) -> bool { at(s, i).kind is EndOfProgram || at(s, i).mode is Plain }
pub open spec fn in_regex<'a>(s: Seq<Tok<'a>>, i: int) -> bool { at(s, i).kind is EndOfProgram || at(s, i).mode is Regex }
pub open spec fn in_quasi<'a>(s: Seq<Tok<'a>>, i: int) -> bool { at(s, i).kind is EndOfProgram || at(s, i).mode is Quasi }
/// Where a statement may end without a semicolon
pub open spec fn asi<'a>(t: Tok<'a>) -> Asi {
    if t.kind is Semicolon { Asi::ExplicitSemicolon }
    else if t.kind is ParenClose || t.kind is BraceClose || t.kind is EndOfProgram || t.nl { Asi::ImplicitSemicolon }
    else { Asi::NoSemicolon }
}
/// An error of the lexer points into the text (unit lexer)
pub uninterp spec fn err_ok(e: Error) -> bool;
pub uninterp spec fn slen(s: &str) -> nat;
/// The tokens of a text (in the modes the parser asks for)
pub uninterp spec fn toks_of<'a>(source: &str) -> Seq<Tok<'a>>;
impl<'ast> Lexer<'ast> {
    pub open spec fn t(&self) -> Tok<'ast> { at(self.s@, self.i@) }
    #[verifier::external_body] pub fn vx_token(&self) -> (r: Token) ensures r == self.t().kind { unimplemented!() }
    #[verifier::external_body] pub fn vx_quasi(&self) -> (r: &'ast str) ensures r == self.t().quasi { unimplemented!() }
    #[verifier::external_body] pub fn token_as_str(&self) -> (r: &'ast str) ensures r == self.t().text, self.t().kind is LiteralString ==> slen(r) >= 2 { unimplemented!() }
    #[verifier::external_body] pub fn accessor_as_str(&self) -> (r: &'ast str) ensures self.t().kind is Accessor ==> r == self.t().acc { unimplemented!() }
    #[verifier::external_body] pub fn asi(&self) -> (r: Asi) ensures r == asi(self.t()) { unimplemented!() }
    #[verifier::external_body] pub fn start(&self) -> (r: u32) ensures of_token(r) { unimplemented!() }
    #[verifier::external_body] pub fn end(&self) -> (r: u32) ensures of_token(r) { unimplemented!() }
    #[verifier::external_body] pub fn loc(&self) -> (r: (u32, u32)) ensures of_token(r.0), of_token(r.1) { unimplemented!() }
    pub open spec fn next(a: Self, b: Self) -> bool { b.s@ == a.s@ && b.i@ == a.i@ + 1 && plain(b.s@, b.i@) && Self::stepped(a, b) }
    /// (what stk says of one more token)
    pub open spec fn stepped(a: Self, b: Self) -> bool { stk(b.s@, b.i@) == after(stk(a.s@, a.i@), a.t().kind) }
    #[verifier::external_body] pub fn consume(&mut self) ensures Self::next(*old(self), *final(self)) { unimplemented!() }
    #[verifier::external_body] pub fn start_then_consume(&mut self) -> (r: u32) ensures of_token(r), Self::next(*old(self), *final(self)) { unimplemented!() }
    #[verifier::external_body] pub fn end_then_consume(&mut self) -> (r: u32) ensures of_token(r), Self::next(*old(self), *final(self)) { unimplemented!() }
    #[verifier::external_body] pub fn read_regular_expression(&mut self) -> (r: &'ast str)
        requires old(self).t().kind is OperatorDivision
        ensures final(self).s@ == old(self).s@, final(self).i@ == old(self).i@ + 1, in_regex(final(self).s@, final(self).i@), Self::stepped(*old(self), *final(self)), r == final(self).t().text
    { unimplemented!() }
    #[verifier::external_body] pub fn read_template_kind(&mut self)
        requires old(self).t().kind is BraceClose
        ensures final(self).s@ == old(self).s@, final(self).i@ == old(self).i@ + 1, in_quasi(final(self).s@, final(self).i@), Self::stepped(*old(self), *final(self))
    { unimplemented!() }
    #[verifier::external_body] pub fn invalid_token(&mut self) -> (r: Error)
        ensures final(self).s@ == old(self).s@, err_ok(r),
            final(self).i@ == (if old(self).t().kind is EndOfProgram { old(self).i@ } else { old(self).i@ + 1 }),
    { unimplemented!() }
}

// ---- what the grammar needs to know

pub open spec fn binds<'a>(thr: int, t: Tok<'a>) -> bool {
    level(t.kind) > thr && !(t.kind is EndOfProgram) && !((t.kind is OperatorIncrement || t.kind is OperatorDecrement) && asi(t) is ImplicitSemicolon)
}
/// What can be assigned to
pub open spec fn lvalue<'a>(e: Expression<'a>) -> bool {
    e is Identifier || e is Member || e is ComputedMember || e is Object || e is Array || e is Spread
}
pub open spec fn arrow_params<'a>(left: ExpressionNode<'a>) -> Seq<ExpressionNode<'a>> {
    match *left.item { Expression::Sequence(x) => x.body.q@, _ => Seq::empty().push(left) }
}
/// The parameter an expression before `=>` stands for
pub open spec fn pattern_of<'a>(e: ExpressionNode<'a>) -> Option<Node<'a, Pattern<'a>>>
    decreases e
{
    match *e.item {
        Expression::Identifier(n) => Some(nd(Pattern::Identifier(n))),
        Expression::Binary(b) => if b.operator is Assign {
            match pattern_of(b.left) { Some(left) => Some(nd(Pattern::AssignmentPattern { left, right: b.right })), None => None }
        } else { None },
        _ => None,
    }
}
pub open spec fn patterns_of<'a>(q: Seq<ExpressionNode<'a>>, k: int, acc: Seq<Node<'a, Pattern<'a>>>) -> Option<Seq<Node<'a, Pattern<'a>>>>
    decreases q.len() - k
{
    if k < 0 || k >= q.len() { Some(acc) } else {
        match pattern_of(q[k]) { Some(p) => patterns_of(q, k + 1, acc.push(p)), None => None }
    }
}

// ---- brackets

pub enum Br { Paren, Bracket, Brace }
pub enum Stk { Nil, Cons(Br, Box<Stk>), Bad }
pub open spec fn opens(k: Token) -> Option<Br> {
    match k { Token::ParenOpen => Some(Br::Paren), Token::BracketOpen => Some(Br::Bracket), Token::BraceOpen => Some(Br::Brace), Token::TemplateOpen => Some(Br::Brace), _ => None }
}
pub open spec fn closes(k: Token) -> Option<Br> {
    match k { Token::ParenClose => Some(Br::Paren), Token::BracketClose => Some(Br::Bracket), Token::BraceClose => Some(Br::Brace), _ => None }
}
pub open spec fn push(k: Stk, b: Br) -> Stk { if k is Bad { k } else { Stk::Cons(b, Box::new(k)) } }
pub open spec fn pop(k: Stk, b: Br) -> Stk { match k { Stk::Cons(c, r) => if c == b { *r } else { Stk::Bad }, _ => Stk::Bad } }
/// The brackets open before the token i; Bad after one that does not match, or a token that is none
#[verifier::opaque]
pub open spec fn stk<'a>(s: Seq<Tok<'a>>, i: int) -> Stk
    decreases i
{
    if i <= 0 { Stk::Nil } else { after(stk(s, i - 1), at(s, i - 1).kind) }
}
pub open spec fn after(k: Stk, t: Token) -> Stk {
    if t is UnexpectedToken || t is UnexpectedEndOfProgram { Stk::Bad }
    else if opens(t) is Some { push(k, opens(t)->0) }
    else if closes(t) is Some { pop(k, closes(t)->0) }
    else { k }
}

// ---- steps of the parser

impl<'ast> Parser<'ast> {
    pub open spec fn s(&self) -> Seq<Tok<'ast>> { self.lexer.s@ }
    pub open spec fn i(&self) -> int { self.lexer.i@ }
    pub open spec fn k(&self) -> Token { self.lexer.t().kind }
    pub open spec fn stk(&self) -> Stk { stk(self.lexer.s@, self.lexer.i@) }
}
/// Only errors are added, and only tokens taken
pub open spec fn kept<'a>(a: Parser<'a>, b: Parser<'a>) -> bool {
    &&& b.lexer.s@ == a.lexer.s@ && b.lexer.i@ >= a.lexer.i@
    &&& b.errors@.len() >= a.errors@.len()
    &&& b.body == a.body
}
pub open spec fn clean<'a>(a: Parser<'a>, b: Parser<'a>) -> bool { b.errors@.len() == a.errors@.len() }
pub open spec fn errs_ok(e: Seq<Error>) -> bool { forall|k: int| 0 <= k < e.len() ==> err_ok(#[trigger] e[k]) }
pub open spec fn ok_errs<'a>(a: Parser<'a>, b: Parser<'a>) -> bool { errs_ok(a.errors@) ==> errs_ok(b.errors@) }
pub open spec fn went<'a>(a: Parser<'a>, b: Parser<'a>) -> bool { b.lexer.i@ > a.lexer.i@ || a.lexer.t().kind is EndOfProgram }
pub open spec fn even<'a>(a: Parser<'a>, b: Parser<'a>) -> bool { clean(a, b) && !(a.stk() is Bad) ==> b.stk() == a.stk() }
pub open spec fn popped<'a>(a: Parser<'a>, b: Parser<'a>, c: Br) -> bool { clean(a, b) && !(a.stk() is Bad) && !(pop(a.stk(), c) is Bad) ==> b.stk() == pop(a.stk(), c) }
/// What was read, if it was read without an error
pub open spec fn got<'a, T>(a: Parser<'a>, b: Parser<'a>, r: T) -> Option<(T, int)> { if clean(a, b) { Some((r, b.lexer.i@)) } else { None } }
pub open spec fn then<'a, T>(a: Parser<'a>, b: Parser<'a>, r: Option<(T, int)>) -> Option<(T, int)> { if clean(a, b) { r } else { None } }
pub open spec fn map_seq<'a>(r: Option<(Seq<ExpressionNode<'a>>, int)>) -> Option<(ExpressionNode<'a>, int)> { match r { Some((t, j)) => Some((nd(Expression::Sequence(SequenceExpression { body: lst(t) })), j)), None => None } }
pub open spec fn map_case<'a>(r: Option<(Seq<StatementNode<'a>>, int)>, test: Option<ExpressionNode<'a>>) -> Option<(Node<'a, SwitchCase<'a>>, int)> { match r { Some((t, j)) => Some((nd(SwitchCase { test, consequent: lst(t) }), j)), None => None } }
pub open spec fn put<T>(r: Option<((), int)>, x: T) -> Option<(T, int)> { match r { Some((_, j)) => Some((x, j)), None => None } }
pub open spec fn with<T>(r: Option<T>, i: int) -> Option<(T, int)> { match r { Some(x) => Some((x, i)), None => None } }
pub open spec fn with_lst<'a, T>(r: Option<Seq<T>>, i: int) -> Option<(List<'a, T>, int)> { match r { Some(x) => Some((lst(x), i)), None => None } }
/// The same, inside a brace opened since
pub open spec fn even_in<'a>(a: Parser<'a>, b: Parser<'a>) -> bool { clean(a, b) && !(a.stk() is Bad) ==> b.stk() == push(a.stk(), Br::Brace) }
pub open spec fn cx(c: VxT_Context) -> int { match c { VxT_Context::DEF_CONTEXT => 0, VxT_Context::ARRAY_CONTEXT => 1, VxT_Context::CALL_CONTEXT => 2 } }
pub open spec fn map_nd<'a, T, U: VxFrom<T>>(r: Option<(T, int)>) -> Option<(Node<'a, U>, int)> { match r { Some((t, j)) => Some((nd(U::mk(t)), j)), None => None } }
pub open spec fn map_lst<'a, T>(r: Option<(Seq<T>, int)>) -> Option<(List<'a, T>, int)> { match r { Some((t, j)) => Some((lst(t), j)), None => None } }
pub open spec fn map_block<'a, T>(r: Option<(Seq<Node<'a, T>>, int)>) -> Option<(Block<'a, T>, int)> { match r { Some((t, j)) => Some((Block { body: lst(t) }, j)), None => None } }

impl<'ast> MandatoryName<'ast> {
    #[verifier::external_body] pub fn empty() -> Self { unimplemented!() }
}
impl<'ast> Lexer<'ast> {
    #[verifier::external_body] pub fn new(arena: &'ast Arena, source: &str) -> (r: Self)
        ensures r.s@ == toks_of(source), r.i@ == 0
    { unimplemented!() }
}

// what an error leaves in the tree: nothing is said about it
#[verifier::external_body] pub fn vx_error_node<'ast, T>() -> Node<'ast, T> { unimplemented!() }

/// Lexer::stepped asks for nothing that stk does not say itself
proof fn lemma_stepped<'a>(s: Seq<Tok<'a>>, i: int)
    ensures stk(s, i + 1) == after(stk(s, i), at(s, i).kind)
{
    reveal(stk);
}
