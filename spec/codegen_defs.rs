// what is written: bytes, and what only pretty output shows (a blank, a new line, indentation)
pub enum Out { B(u8), Gap, Line, In, De }
// the last byte of minified output, and whether pretty output has blank space behind it that
// could split what minified output joins
pub struct Mon { pub pend: bool, pub last: u8 }

pub open spec fn wr(t: Seq<Out>, s: Seq<u8>) -> Seq<Out> decreases s.len() {
    if s.len() == 0 { t } else { wr(t, s.drop_last()).push(Out::B(s.last())) }
}
pub open spec fn word(b: u8) -> bool { 48 <= b <= 57 || 65 <= b <= 90 || 97 <= b <= 122 || b == 95 || b == 36 || b >= 128 }
pub open spec fn pun(b: u8) -> bool { !word(b) }
pub open spec fn mon_byte(m: Mon, b: u8) -> Mon { Mon { pend: false, last: b } }
pub open spec fn mon_gap(m: Mon) -> Mon { Mon { pend: m.pend || !pun(m.last), last: m.last } }
pub open spec fn mon_bytes(m: Mon, s: Seq<u8>) -> Mon { if s.len() == 0 { m } else { Mon { pend: false, last: s.last() } } }
pub open spec fn mon_of(t: Seq<Out>) -> Mon decreases t.len() {
    if t.len() == 0 { Mon { pend: false, last: 0u8 } } else {
        let m = mon_of(t.drop_last());
        match t.last() { Out::B(b) => mon_byte(m, b), Out::Gap | Out::Line => mon_gap(m), _ => m }
    }
}
pub open spec fn pred(d: nat) -> nat { if d == 0 { 0 } else { (d - 1) as nat } }
pub open spec fn dep_of(t: Seq<Out>) -> nat decreases t.len() {
    if t.len() == 0 { 0 } else {
        let d = dep_of(t.drop_last());
        match t.last() { Out::In => d + 1, Out::De => pred(d), _ => d }
    }
}
/// minified output
pub open spec fn min(t: Seq<Out>) -> Seq<u8> decreases t.len() {
    if t.len() == 0 { Seq::empty() } else {
        let s = min(t.drop_last());
        match t.last() { Out::B(b) => s.push(b), _ => s }
    }
}
/// pretty output
pub open spec fn pretty(t: Seq<Out>) -> Seq<u8> decreases t.len() {
    if t.len() == 0 { Seq::empty() } else {
        let s = pretty(t.drop_last());
        match t.last() { Out::B(b) => s.push(b), Out::Gap => s.push(32u8), Out::Line => s.push(10u8) + blanks((4 * dep_of(t.drop_last())) as int), _ => s }
    }
}
pub open spec fn blanks(n: int) -> Seq<u8> { Seq::new((if n < 0 { 0 } else { n }) as nat, |i: int| 32u8) }
pub proof fn lemma_push(t: Seq<Out>, o: Out)
    ensures t.push(o).drop_last() == t, t.push(o).last() == o, t.push(o).len() == t.len() + 1,
        min(t.push(o)) == (match o { Out::B(b) => min(t).push(b), _ => min(t) }),
        pretty(t.push(o)) == (match o { Out::B(b) => pretty(t).push(b), Out::Gap => pretty(t).push(32u8), Out::Line => pretty(t).push(10u8) + blanks((4 * dep_of(t)) as int), _ => pretty(t) }),
        dep_of(t.push(o)) == (match o { Out::In => dep_of(t) + 1, Out::De => pred(dep_of(t)), _ => dep_of(t) }),
        mon_of(t.push(o)) == (match o { Out::B(b) => mon_byte(mon_of(t), b), Out::Gap | Out::Line => mon_gap(mon_of(t)), _ => mon_of(t) }),
{ assert(t.push(o).drop_last() =~= t); }
pub proof fn lemma_wr(t: Seq<Out>, s: Seq<u8>)
    ensures min(wr(t, s)) == min(t) + s, pretty(wr(t, s)) == pretty(t) + s, dep_of(wr(t, s)) == dep_of(t), mon_of(wr(t, s)) == mon_bytes(mon_of(t), s)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_wr(t, s.drop_last());
        lemma_push(wr(t, s.drop_last()), Out::B(s.last()));
        assert(min(t) + s =~= (min(t) + s.drop_last()).push(s.last()));
        assert(pretty(t) + s =~= (pretty(t) + s.drop_last()).push(s.last()));
    } else {
        assert(min(t) + s =~= min(t));
        assert(pretty(t) + s =~= pretty(t));
    }
}

// indentation only ever follows an opening brace or a colon, so that its depth is less than the length of the output
pub open spec fn braced(t: Seq<Out>) -> bool decreases t.len() {
    t.len() == 0 || (braced(t.drop_last()) && (t.last() is In ==> opened(t.drop_last())))
}
pub open spec fn opened(t: Seq<Out>) -> bool { t.len() > 0 && (t.last() == Out::B(123u8) || t.last() == Out::B(58u8)) }
pub open spec fn written(t: Seq<Out>) -> nat decreases t.len() { if t.len() == 0 { 0 } else { written(t.drop_last()) + (if t.last() is B { 1nat } else { 0nat }) } }
pub proof fn lemma_braced(t: Seq<Out>, o: Out)
    ensures braced(t.push(o)) == (braced(t) && (o is In ==> opened(t))),
{ assert(t.push(o).drop_last() =~= t); }
pub proof fn lemma_braced_wr(t: Seq<Out>, s: Seq<u8>)
    requires braced(t) ensures braced(wr(t, s)) decreases s.len()
{ if s.len() > 0 { lemma_braced_wr(t, s.drop_last()); lemma_braced(wr(t, s.drop_last()), Out::B(s.last())); } }
pub proof fn lemma_depth(t: Seq<Out>)
    requires braced(t)
    ensures dep_of(t) <= written(t), opened(t) ==> dep_of(t) < written(t), written(t) <= pretty(t).len(), written(t) <= min(t).len()
    decreases t.len()
{ if t.len() > 0 { lemma_depth(t.drop_last()); } }

// UTF-8 (the Unicode standard's table of well-formed byte sequences), read from the end
pub open spec fn tail_byte(b: u8) -> bool { 0x80 <= b <= 0xBF }
pub open spec fn utf8(s: Seq<u8>) -> bool
    decreases s.len()
{
    let n = s.len() as int;
    n == 0
    || s[n - 1] < 0x80 && utf8(s.take(n - 1))
    || n >= 2 && 0xC2 <= s[n - 2] <= 0xDF && tail_byte(s[n - 1]) && utf8(s.take(n - 2))
    || n >= 3 && (s[n - 3] == 0xE0 && 0xA0 <= s[n - 2] <= 0xBF || s[n - 3] == 0xED && 0x80 <= s[n - 2] <= 0x9F || 0xE1 <= s[n - 3] <= 0xEF && s[n - 3] != 0xED && tail_byte(s[n - 2]))
        && tail_byte(s[n - 1]) && utf8(s.take(n - 3))
    || n >= 4 && (s[n - 4] == 0xF0 && 0x90 <= s[n - 3] <= 0xBF || 0xF1 <= s[n - 4] <= 0xF3 && tail_byte(s[n - 3]) || s[n - 4] == 0xF4 && 0x80 <= s[n - 3] <= 0x8F)
        && tail_byte(s[n - 2]) && tail_byte(s[n - 1]) && utf8(s.take(n - 4))
}
pub proof fn lemma_utf8_cat(a: Seq<u8>, b: Seq<u8>)
    requires utf8(a), utf8(b)
    ensures utf8(a + b)
    decreases b.len()
{
    let (c, m, n) = (a + b, b.len() as int, (a + b).len() as int);
    if m == 0 { assert(c =~= a); } else {
        assert forall|k: int| 1 <= k <= m implies #[trigger] c.take(n - k) == a + b.take(m - k) by { assert(c.take(n - k) =~= a + b.take(m - k)); }
        assert(utf8(b.take(m - 1)) ==> utf8(c.take(n - 1))) by { if utf8(b.take(m - 1)) { lemma_utf8_cat(a, b.take(m - 1)); } }
        if m >= 2 { assert(utf8(b.take(m - 2)) ==> utf8(c.take(n - 2))) by { if utf8(b.take(m - 2)) { lemma_utf8_cat(a, b.take(m - 2)); } } }
        if m >= 3 { assert(utf8(b.take(m - 3)) ==> utf8(c.take(n - 3))) by { if utf8(b.take(m - 3)) { lemma_utf8_cat(a, b.take(m - 3)); } } }
        if m >= 4 { assert(utf8(b.take(m - 4)) ==> utf8(c.take(n - 4))) by { if utf8(b.take(m - 4)) { lemma_utf8_cat(a, b.take(m - 4)); } } }
    }
}
pub proof fn lemma_utf8_push(a: Seq<u8>, b: u8)
    requires utf8(a), b < 0x80
    ensures utf8(a.push(b))
{ assert(a.push(b).take(a.len() as int) =~= a); }

// the unsafe primitives of a growing buffer
pub uninterp spec fn cap(v: Vec<u8>) -> nat;
/// Vec::reserve (panics if the capacity would exceed isize::MAX)
#[verifier::external_body] pub fn vx_reserve(v: &mut Vec<u8>, n: usize)
    ensures final(v)@ == old(v)@, cap(*final(v)) >= old(v)@.len() + n, cap(*final(v)) <= isize::MAX { unimplemented!() }
#[verifier::external_body] pub fn vx_capacity(v: &Vec<u8>) -> (r: usize) ensures r == cap(*v), r >= v@.len() { unimplemented!() }
/// Vec::set_len: what was there stays, the rest is whatever the memory holds
#[verifier::external_body] pub fn vx_set_len(v: &mut Vec<u8>, n: usize)
    requires n <= cap(*old(v))
    ensures final(v)@.len() == n, cap(*final(v)) == cap(*old(v)), forall|i: int| 0 <= i < n && i < old(v)@.len() ==> final(v)@[i] == old(v)@[i] { unimplemented!() }
/// ptr::copy_nonoverlapping(src.as_ptr(), dst.as_mut_ptr().add(at), n); dst is borrowed mutably, so the two do not overlap
#[verifier::external_body] pub fn vx_copy(src: &[u8], dst: &mut Vec<u8>, at: usize, n: usize)
    requires n <= src@.len(), at + n <= cap(*old(dst))
    ensures final(dst)@.len() == old(dst)@.len(), cap(*final(dst)) == cap(*old(dst)),
        forall|i: int| 0 <= i < old(dst)@.len() ==> final(dst)@[i] == (if at <= i < at + n { src@[i - at] } else { old(dst)@[i] }) { unimplemented!() }

// strings
pub uninterp spec fn sb(s: &str) -> Seq<u8>;
#[verifier::external_body] pub fn vx_str(s: &[u8]) -> (r: &'static str) ensures sb(r) == s@ { unimplemented!() }
#[verifier::external_body] pub fn vx_bytes<'a>(s: &'a str) -> (r: &'a [u8]) ensures r@ == sb(s) { unimplemented!() }
#[verifier::external_body] pub fn vx_same(a: &str, b: &str) -> (r: bool) ensures r == (sb(a) == sb(b)) { unimplemented!() }
#[verifier::external_body] pub fn vx_string(code: Vec<u8>) -> (r: Text) requires utf8(code@) ensures r.code@ == code@ { unimplemented!() }
pub struct Text { pub code: Vec<u8> }
pub open spec fn all_digits(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> 48 <= #[trigger] s[i] <= 57 }
#[verifier::external_body] pub fn vx_all_digits(s: &str) -> (r: bool) ensures r == all_digits(sb(s)) { unimplemented!() }
/// an unescaped single quote in s[..n], and whether s[n] is escaped
pub open spec fn quoted(s: Seq<u8>, n: int) -> bool decreases n { n > 0 && (quoted(s, n - 1) || (s[n - 1] == 39 && !esc_at(s, n - 1))) }
pub open spec fn esc_at(s: Seq<u8>, n: int) -> bool decreases n { n > 0 && s[n - 1] == 92 && !esc_at(s, n - 1) }
pub open spec fn quote(s: Seq<u8>) -> u8 { if quoted(s, s.len() as int) { 34u8 } else { 39u8 } }
pub proof fn lemma_quoted(s: Seq<u8>, n: int, m: int)
    requires 0 <= n <= m, quoted(s, n) ensures quoted(s, m) decreases m
{ if n < m { lemma_quoted(s, n, m - 1); } }

// lists
pub open spec fn list_last<'ast, T>(l: List<'ast, T>) -> Option<&'ast T> decreases l {
    match l { List::Nil => None, List::Cons(h, tl) => if *tl is Nil { Some(h) } else { list_last(*tl) } }
}
pub open spec fn snoc<'ast, T>(l: List<'ast, T>, x: &'ast T) -> List<'ast, T> decreases l {
    match l { List::Nil => List::Cons(x, &List::Nil), List::Cons(h, tl) => List::Cons(h, &snoc(*tl, x)) }
}
pub open spec fn cat_list<'ast, T>(a: List<'ast, T>, b: List<'ast, T>) -> List<'ast, T> decreases a {
    match a { List::Nil => b, List::Cons(h, tl) => List::Cons(h, &cat_list(*tl, b)) }
}
pub proof fn lemma_snoc<'ast, T>(a: List<'ast, T>, x: &'ast T, b: List<'ast, T>)
    ensures cat_list(snoc(a, x), b) == cat_list(a, List::Cons(x, &b)) decreases a
{
    reveal_with_fuel(cat_list, 3);
    match a { List::Nil => { assert(snoc(a, x) == List::Cons(x, &List::Nil)); } List::Cons(h, tl) => { lemma_snoc(*tl, x, b); } }
}
pub proof fn lemma_nil<'ast, T>(a: List<'ast, T>)
    ensures cat_list(a, List::Nil) == a decreases a
{ match a { List::Nil => {} List::Cons(h, tl) => { lemma_nil(*tl); } } }
impl<'ast, T> List<'ast, T> {
    pub fn next(&mut self) -> (r: Option<&'ast T>)
        ensures match *old(self) { List::Nil => r is None && *final(self) == *old(self), List::Cons(h, tl) => r == Some(h) && *final(self) == *tl }
    { let l = *self; match l { List::Nil => None, List::Cons(h, tl) => { *self = *tl; Some(h) } } }
    #[verifier::external_body] pub fn last(&self) -> (r: Option<&'ast T>) ensures r == list_last(*self) { unimplemented!() }
    #[verifier::external_body] pub fn vx_push(self, x: &'ast T) -> (r: Self) ensures r == snoc(self, x) { unimplemented!() }
    pub fn into_iter(self) -> (r: Self) ensures r == self { self }
}
pub fn vx_none<'ast, T>() -> (r: List<'ast, T>) ensures r == List::<'ast, T>::Nil { List::Nil }
#[verifier::external_body] pub fn vx_cloned<T: Copy>(o: Option<&T>) -> (r: Option<T>) ensures r == (match o { Some(x) => Some(*x), None => None }) { unimplemented!() }
pub open spec fn zip_list<'ast, A, B>(a: List<'ast, A>, b: List<'ast, B>) -> List<'ast, (&'ast A, &'ast B)> decreases a {
    match (a, b) { (List::Cons(x, at), List::Cons(y, bt)) => List::Cons(&(x, y), &zip_list(*at, *bt)), _ => List::Nil }
}
#[verifier::external_body] pub fn vx_zip<'ast, A, B>(a: List<'ast, A>, b: &List<'ast, B>) -> (r: List<'ast, (&'ast A, &'ast B)>) ensures r == zip_list(a, *b) { unimplemented!() }
pub open spec fn pr_zip<'ast>(l: List<'ast, (&'ast Node<'ast, &'ast str>, &'ast ExpressionNode<'ast>)>, t: Seq<Out>) -> Seq<Out> decreases l {
    match l { List::Nil => t, List::Cons(p, tl) => pr_zip(*tl, wr(pr_expr((*(*p).1).item, t.push(Out::B(36u8)).push(Out::B(123u8)).push(Out::Gap)).push(Out::Gap).push(Out::B(125u8)), sb((*(*p).0).item))) }
}
pub proof fn lemma_zip<'ast>(qs: NodeList<'ast, &'ast str>, es: ExpressionList<'ast>, t: Seq<Out>)
    ensures pr_zip(zip_list(qs, es), t) == pr_quasis_t(qs, es, t) decreases qs
{
    match (qs, es) {
        (List::Cons(q, tl), List::Cons(e, etl)) => { lemma_zip(*tl, *etl, wr(pr_expr((*e).item, t.push(Out::B(36u8)).push(Out::B(123u8)).push(Out::Gap)).push(Out::Gap).push(Out::B(125u8)), sb((*q).item))); }
        _ => {}
    }
}
pub trait VxItems<'ast, T> { spec fn sp_items(self) -> Option<&'ast T>; fn vx_items(self) -> (r: Option<&'ast T>) ensures r == self.sp_items(); }
impl<'ast, T> VxItems<'ast, T> for Option<&'ast Node<'ast, T>> {
    open spec fn sp_items(self) -> Option<&'ast T> { match self { Some(n) => Some(&n.item), None => None } }
    fn vx_items(self) -> (r: Option<&'ast T>) { match self { Some(n) => Some(&n.item), None => None } }
}
pub trait VxStr { spec fn sp_bytes(&self) -> Seq<u8>; fn vx_as_bytes(&self) -> (r: &[u8]) ensures r@ == self.sp_bytes(), utf8(r@); }
impl VxStr for str {
    open spec fn sp_bytes(&self) -> Seq<u8> { sb(self) }
    #[verifier::external_body] fn vx_as_bytes(&self) -> (r: &[u8]) { unimplemented!() }
}

// the constructs
pub trait PrName { spec fn pn(&self, t: Seq<Out>) -> Seq<Out>; }
impl PrName for EmptyName { open spec fn pn(&self, t: Seq<Out>) -> Seq<Out> { t } }
impl<'ast> PrName for MandatoryName<'ast> { open spec fn pn(&self, t: Seq<Out>) -> Seq<Out> { wr(t.push(Out::B(32u8)), sb(self.0.item)) } }
impl<'ast> PrName for OptionalName<'ast> { open spec fn pn(&self, t: Seq<Out>) -> Seq<Out> { match self.0 { Some(n) => wr(t.push(Out::B(32u8)), sb(n.item)), None => t.push(Out::Gap) } } }
/// how strongly an expression binds
pub open spec fn level(e: Expression) -> int {
    match e {
        Expression::Sequence(_) => 0, Expression::Arrow(_) => 3, Expression::Conditional(_) => 4,
        Expression::Binary(x) => op_level(x.operator), Expression::Postfix(x) => op_level(x.operator), Expression::Prefix(_) => 15,
        Expression::Call(_) => 17, Expression::Member(_) => 18, Expression::MetaProperty(_) => 18, _ => 100,
    }
}
/// the base of a power can be no unary expression and no product
pub open spec fn left_level(op: OperatorKind) -> int { if op is Exponent { 16 } else { op_level(op) } }
/// powers and assignments group to the right
pub open spec fn right_level(x: BinaryExpression) -> int {
    if is_assignment(x.operator) || (x.operator is Exponent && x.right.item is Binary && x.right.item->Binary_0.operator is Exponent) { op_level(x.operator) } else { op_level(x.operator) + 1 }
}
/// the expression its code starts with, where that is no parenthesis
pub open spec fn lead<'ast>(e: Expression<'ast>) -> Expression<'ast> decreases e {
    match e {
        Expression::Binary(x) => if level(x.left.item) < left_level(x.operator) { e } else { lead(x.left.item) },
        Expression::Conditional(x) => if level(x.test.item) < 5 { e } else { lead(x.test.item) },
        Expression::Postfix(x) => if level(x.operand.item) < 17 { e } else { lead(x.operand.item) },
        Expression::Call(x) => if level(x.callee.item) < 17 { e } else { lead(x.callee.item) },
        Expression::TaggedTemplate(x) => if level(x.tag.item) < 17 { e } else { lead(x.tag.item) },
        Expression::Member(x) => if level(x.object.item) < 19 { e } else { lead(x.object.item) },
        Expression::ComputedMember(x) => if level(x.object.item) < 19 { e } else { lead(x.object.item) },
        Expression::Sequence(x) => match x.body { List::Cons(h, _) => if level(h.item) < 1 { e } else { lead(h.item) }, List::Nil => e },
        _ => e,
    }
}
pub open spec fn bare(e: Expression) -> bool { !(e is Object || e is Function || e is Class) }
pub open spec fn prefix_cat(e: Expression, c: OperatorCategory) -> bool { e is Prefix && cat(e->Prefix_0.operator) == c }
pub open spec fn space_left(x: BinaryExpression) -> bool {
    let c = cat(x.operator);
    c is Word || (!(c is Safe) && x.left.item is Postfix && cat(x.left.item->Postfix_0.operator) == c)
}
pub open spec fn space_right(x: BinaryExpression) -> bool {
    let c = cat(x.operator);
    let l = lead(x.right.item);
    c is Word || (!(c is Safe) && prefix_cat(l, c)) || (x.operator is Division && l is Literal && l->Literal_0 is RegEx)
}
pub open spec fn space_prefix(x: PrefixExpression) -> bool {
    let c = cat(x.operator);
    c is Word || (!(c is Safe) && prefix_cat(x.operand.item, c))
}
pub open spec fn tag_root<'ast>(n: ExpressionNode<'ast>) -> ExpressionNode<'ast> decreases n {
    match n.item { Expression::TaggedTemplate(x) => tag_root(x.tag), _ => n }
}
pub open spec fn plain_int(e: Expression) -> bool { e is Literal && e->Literal_0 is Number && all_digits(sb(e->Literal_0->Number_0)) }
pub open spec fn block(n: StatementNode) -> bool { n.item is Block }
/// statements that end without a semicolon of their own where one may be needed
pub open spec fn open_ended<'ast>(s: Statement<'ast>) -> bool decreases s {
    match s {
        Statement::Debugger => true, Statement::Import(_) => true,
        Statement::If(x) => match x.alternate { Some(y) => open_ended(y.item), None => open_ended(x.consequent.item) },
        Statement::While(x) => open_ended(x.body.item), Statement::For(x) => open_ended(x.body.item), Statement::ForIn(x) => open_ended(x.body.item),
        Statement::ForOf(x) => open_ended(x.body.item), Statement::Labeled(x) => open_ended(x.body.item),
        _ => false,
    }
}
pub open spec fn last_open_ended<'ast>(l: StatementList<'ast>) -> bool { match list_last(l) { Some(s) => open_ended((*s).item), None => false } }
pub open spec fn case_open<'ast>(c: SwitchCase<'ast>) -> bool { last_open_ended(c.consequent) }
pub open spec fn last_case_open<'ast>(l: NodeList<'ast, SwitchCase<'ast>>) -> bool { match list_last(l) { Some(s) => case_open((*s).item), None => false } }
pub open spec fn never_open<'ast>(c: ClassMember<'ast>) -> bool { false }
pub open spec fn last_never_open<'ast>(l: NodeList<'ast, ClassMember<'ast>>) -> bool { false }
/// an expression with an `in` that a for loop would take as its own
pub open spec fn heads_in<'ast>(e: Expression<'ast>) -> bool decreases e {
    match e {
        Expression::Binary(x) => x.operator is In || heads_in(x.left.item),
        Expression::Conditional(x) => heads_in(x.test.item),
        Expression::Sequence(x) => match x.body { List::Cons(h, _) => heads_in(h.item), List::Nil => false },
        _ => false,
    }
}
pub open spec fn selective(s: ForImportSpecifier) -> bool { s is ImportSpecifier }
pub open spec fn keep<'ast>(l: NodeList<'ast, ForImportSpecifier<'ast>>, sel: bool) -> NodeList<'ast, ForImportSpecifier<'ast>> decreases l {
    match l { List::Nil => List::Nil, List::Cons(h, tl) => if selective((*h).item) == sel { List::Cons(h, &keep(*tl, sel)) } else { keep(*tl, sel) } }
}

// the references of the tree are followed by hand
impl<'ast> Loc<Expression<'ast>> {
    pub fn vx_in(&self) -> (r: &Expression<'ast>) ensures *r == self.item { &self.item }
    pub fn binding_power(&self) -> (r: u8) ensures r == level(self.item) { self.item.binding_power() }
    pub fn is_allowed_as_bare_statement(&self) -> (r: bool) ensures r == bare(self.item) { self.item.is_allowed_as_bare_statement() }
}
impl<'ast> Loc<Statement<'ast>> {
    pub fn vx_in(&self) -> (r: &Statement<'ast>) ensures *r == self.item { &self.item }
    pub fn is_block(&self) -> (r: bool) ensures r == (self.item is Block) { self.item.is_block() }
}
impl<'ast> Expression<'ast> { pub fn vx_in(&self) -> (r: &Expression<'ast>) ensures *r == *self { self } }
impl<'ast> Statement<'ast> { pub fn vx_in(&self) -> (r: &Statement<'ast>) ensures *r == *self { self } }
