// A node of an expression can be made to hold another expression (Node::set). Here a node is the reference it held
// first, told apart from others by `cell`; what has been set since is in the arena's ghost map.
pub type Heap<'ast> = Map<ExpressionNode<'ast>, ExpressionNode<'ast>>;
pub open spec fn was_set<'ast>(h: Heap<'ast>, k: ExpressionNode<'ast>) -> bool { h.contains_key(k) }
/// what the node holds now
pub open spec fn read<'ast>(h: Heap<'ast>, n: ExpressionNode<'ast>) -> ExpressionNode<'ast> { if was_set(h, n) { h[n] } else { n } }
pub open spec fn le<'ast>(h: Heap<'ast>, g: Heap<'ast>) -> bool {
    forall|k: ExpressionNode<'ast>| #![trigger was_set(h, k)] #![trigger was_set(g, k)] was_set(h, k) ==> was_set(g, k) && g[k] == h[k]
}
/// the statements are `return x`
pub open spec fn returns<'ast>(l: StatementList<'ast>, x: Expression<'ast>) -> bool {
    match l {
        List::Cons(s, tl) => *tl is Nil && (match (*s).item {
            Statement::Return(r) => match r.value { Some(c) => c.item == x && !(x is Arrow), None => false },
            _ => false,
        }),
        List::Nil => false,
    }
}
/// the function an arrow function becomes; within its body an arrow function has become one as well
pub open spec fn low<'ast>(h: Heap<'ast>, a: ArrowExpression<'ast>, f: FunctionExpression<'ast>) -> bool {
    f.name.0 is None && !f.generator && f.params == a.params && (match a.body {
        ArrowBody::Block(b) => f.body == b,
        ArrowBody::Expression(e) => returns(f.body.item.body, read(h, e).item),
    })
}
/// how many arrow functions are the whole body of one another
pub open spec fn depth<'ast>(n: ExpressionNode<'ast>) -> nat
    decreases n
{
    match n.item { Expression::Arrow(a) => match a.body { ArrowBody::Expression(e) => depth(e) + 1, _ => 0 }, _ => 0 }
}
/// only nodes of arrow functions have been set, each to the function it becomes
pub open spec fn good<'ast>(h: Heap<'ast>) -> bool {
    forall|k: ExpressionNode<'ast>| #[trigger] was_set(h, k) ==> (match (k.item, h[k].item) { (Expression::Arrow(a), Expression::Function(f)) => low(h, a, f), _ => false })
}

pub proof fn lemma_arrow<'ast>(h: Heap<'ast>, a: ArrowExpression<'ast>, f: FunctionExpression<'ast>)
    requires good(h), low(h, a, f), forall|k: ExpressionNode<'ast>| #[trigger] arr_func(f, k) ==> was_set(h, k)
    ensures forall|k: ExpressionNode<'ast>| #[trigger] arr_pats(a.params, k) ==> was_set(h, k), forall|k: ExpressionNode<'ast>| #[trigger] arr_arrow(a.body, k) ==> was_set(h, k)
    decreases a
{
    assert forall|k: ExpressionNode<'ast>| #[trigger] arr_pats(a.params, k) implies was_set(h, k) by { assert(arr_func(f, k)); }
    match a.body {
        ArrowBody::Block(b) => {
            assert forall|k: ExpressionNode<'ast>| #[trigger] arr_arrow(a.body, k) implies was_set(h, k) by { assert(arr_func(f, k)); }
        }
        ArrowBody::Expression(e) => {
            let l = f.body.item.body;
            let s = *(match l { List::Cons(s, tl) => s, List::Nil => arbitrary() });
            let r = s.item->Return_0;
            let c = r.value->0;
            assert forall|k: ExpressionNode<'ast>| arr_expr(c, k) implies was_set(h, k) by {
                assert(arr_oexpr(r.value, k));
                assert(arr_stmt(s, k));
                assert(arr_stmts(l, k));
                assert(arr_body(l, k));
                assert(arr_func(f, k));
            }
            if was_set(h, e) {
                let b = e.item->Arrow_0;
                let g = h[e].item->Function_0;
                assert forall|k: ExpressionNode<'ast>| #[trigger] arr_func(g, k) implies was_set(h, k) by { assert(arr_expr(c, k)); }
                lemma_arrow(h, b, g);
                assert forall|k: ExpressionNode<'ast>| arr_expr(e, k) implies was_set(h, k) by { assert(k == e || arr_pats(b.params, k) || arr_arrow(b.body, k)); }
            } else {
                assert forall|k: ExpressionNode<'ast>| arr_expr(e, k) implies was_set(h, k) by { assert(arr_expr(c, k)); }
            }
            assert forall|k: ExpressionNode<'ast>| #[trigger] arr_arrow(a.body, k) implies was_set(h, k) by { assert(arr_expr(e, k)); }
        }
    }
}
/// whoever has visited the function a node now holds has seen the arrow function it held
pub proof fn lemma_seen<'ast>(h: Heap<'ast>, n: ExpressionNode<'ast>)
    requires good(h), was_set(h, n), forall|k: ExpressionNode<'ast>| #[trigger] arr_func(h[n].item->Function_0, k) ==> was_set(h, k)
    ensures forall|k: ExpressionNode<'ast>| #[trigger] arr_expr(n, k) ==> was_set(h, k)
{
    let a = n.item->Arrow_0;
    lemma_arrow(h, a, h[n].item->Function_0);
    assert forall|k: ExpressionNode<'ast>| #[trigger] arr_expr(n, k) implies was_set(h, k) by { assert(k == n || arr_pats(a.params, k) || arr_arrow(a.body, k)); }
}
/// one more node is set
pub proof fn lemma_set<'ast>(h: Heap<'ast>, k: ExpressionNode<'ast>, v: ExpressionNode<'ast>)
    requires good(h), k.item is Arrow, !was_set(h, k), v.item is Function, low(h, k.item->Arrow_0, v.item->Function_0)
    ensures good(h.insert(k, v)), le(h, h.insert(k, v))
{
    let g = h.insert(k, v);
    assert forall|m: ExpressionNode<'ast>| #[trigger] was_set(g, m) implies (match (m.item, g[m].item) { (Expression::Arrow(a), Expression::Function(f)) => low(g, a, f), _ => false }) by {
        if m != k { assert(was_set(h, m)); }
        let a = m.item->Arrow_0;
        if let ArrowBody::Expression(e) = a.body { if e == k { assert(!(read(h, e).item is Arrow)); } }
    }
}

#[verifier::external_body] pub struct Arena<'ast> { x: core::marker::PhantomData<&'ast u8> }
impl<'ast> Arena<'ast> {
    pub uninterp spec fn heap(&self) -> Heap<'ast>;
    #[verifier::external_body] pub fn alloc<T>(&self, v: T) -> (r: &'ast T) ensures *r == v { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_set(&mut self, n: &ExpressionNode<'ast>, v: ExpressionNode<'ast>) ensures final(self).heap() == old(self).heap().insert(*n, v) { unimplemented!() }
    /// a node of its own that holds what n holds
    #[verifier::external_body]
    pub fn vx_copy(&self, n: &ExpressionNode<'ast>) -> (r: ExpressionNode<'ast>) ensures r.item == read(self.heap(), *n).item { unimplemented!() }
    /// what n holds
    #[verifier::external_body]
    pub fn vx_read(&self, n: &ExpressionNode<'ast>) -> (r: ExpressionNode<'ast>) ensures r == read(self.heap(), *n) { unimplemented!() }
}
pub trait VxHeld<'ast>: Sized { spec fn held(self, h: Heap<'ast>) -> Self; }
impl<'ast> VxHeld<'ast> for ExpressionNode<'ast> { open spec fn held(self, h: Heap<'ast>) -> Self { read(h, self) } }
impl<'ast> VxHeld<'ast> for StatementNode<'ast> { open spec fn held(self, h: Heap<'ast>) -> Self { self } }
#[verifier::external_body] pub fn vx_get<'ast, T: VxHeld<'ast>, V: Visitor<'ast>>(n: &'ast T, v: &V) -> (r: &'ast T) ensures *r == n.held(v.heap()) { unimplemented!() }
#[verifier::external_body] pub fn vx_node<'ast, T>(l: &'ast Loc<T>) -> (r: Node<'ast, T>) ensures r.item == l.item { unimplemented!() }
#[verifier::external_body] pub fn vx_list<'ast, T>(arena: &Arena<'ast>, n: Node<'ast, T>) -> (r: NodeList<'ast, T>) ensures r matches List::Cons(h, tl) && *h == n && *tl is Nil { unimplemented!() }
impl<'ast> Module<'ast> {
    /// nothing has been set before
    #[verifier::external_body] pub fn arena(&self) -> (r: Arena<'ast>) ensures r.heap() == Map::<ExpressionNode<'ast>, ExpressionNode<'ast>>::empty() { unimplemented!() }
}
impl<T> Loc<T> {
    #[verifier::external_body] pub fn new(start: u32, end: u32, item: T) -> (r: Self) ensures r.item == item { unimplemented!() }
}
impl<'ast> OptionalName<'ast> {
    pub fn empty() -> (r: Self) ensures r.0 is None { OptionalName(None) }
}
impl<'ast> VxFrom<ReturnStatement<'ast>> for Statement<'ast> {
    open spec fn mk(x: ReturnStatement<'ast>) -> Self { Statement::Return(x) }
    fn vx_from(x: ReturnStatement<'ast>) -> Self { Statement::Return(x) }
}
impl<'ast> VxFrom<Block<'ast, Statement<'ast>>> for Block<'ast, Statement<'ast>> {
    open spec fn mk(x: Self) -> Self { x }
    fn vx_from(x: Self) -> Self { x }
}
impl<'ast> VxFrom<FunctionExpression<'ast>> for Expression<'ast> {
    open spec fn mk(x: FunctionExpression<'ast>) -> Self { Expression::Function(x) }
    fn vx_from(x: FunctionExpression<'ast>) -> Self { Expression::Function(x) }
}
