// scopes live in the arena and are changed through shared references; here the arena carries their contents
pub struct ScopeState<'ast> { pub kind: ScopeKind, pub used_this: bool, pub used_super: bool, pub used: Set<&'ast str>, pub declared: Set<&'ast str>, pub parent: Option<int>, pub children: Seq<int> }
/// the reference to a scope: kind and parent never change, the rest is in the arena
pub struct ScopeRef<'ast> { pub id: Ghost<int>, pub kind: ScopeKind, pub parent: Option<&'ast ScopeRef<'ast>> }
#[verifier::external_body] pub struct Arena { x: u8 }
impl Arena {
    pub uninterp spec fn heap<'ast>(&self) -> Seq<ScopeState<'ast>>;
    #[verifier::external_body]
    pub fn alloc<'ast>(&mut self, s: Scope<'ast>) -> (r: &'ast ScopeRef<'ast>)
        ensures final(self).heap() == old(self).heap().push(scope_state(s)), r.id@ == old(self).heap().len(), r.kind == s.kind, r.parent == s.parent
    { unimplemented!() }
}
impl<'ast> Module<'ast> {
    #[verifier::external_body]
    pub fn arena(&self) -> (r: Arena) { unimplemented!() }
}
pub struct CopyCell<T> { pub v: T }
impl<T: Copy> CopyCell<T> {
    pub fn new(v: T) -> (r: Self) ensures r.v == v { CopyCell { v } }
    pub fn get(&self) -> (r: T) ensures r == self.v { self.v }
    pub fn set(&mut self, v: T) ensures final(self).v == v { self.v = v; }
}
pub struct BloomMap<'ast, K, V> { pub keys: Ghost<Set<K>>, pub x: Ghost<Option<&'ast V>> }
impl<'ast, K, V> BloomMap<'ast, K, V> {
    pub fn new() -> (r: Self) ensures r.keys@ == Set::<K>::empty() { BloomMap { keys: Ghost(Set::empty()), x: Ghost(None) } }
}
pub struct GrowableList<'ast, T> { pub items: Ghost<Seq<T>>, pub x: Ghost<Option<&'ast T>> }
impl<'ast, T> GrowableList<'ast, T> {
    pub fn new() -> (r: Self) ensures r.items@ == Seq::<T>::empty() { GrowableList { items: Ghost(Seq::empty()), x: Ghost(None) } }
}
pub open spec fn ref_id(r: Option<&ScopeRef>) -> Option<int> { match r { Some(p) => Some(p.id@), None => None } }
pub open spec fn ids<'ast>(s: Seq<&'ast ScopeRef<'ast>>) -> Seq<int> { s.map_values(|c: &ScopeRef| c.id@) }
pub proof fn lemma_no_ids<'ast>() ensures ids(Seq::<&'ast ScopeRef<'ast>>::empty()) == Seq::<int>::empty() { assert(ids(Seq::<&'ast ScopeRef<'ast>>::empty()) =~= Seq::<int>::empty()); }
pub open spec fn scope_state<'ast>(s: Scope<'ast>) -> ScopeState<'ast> {
    ScopeState { kind: s.kind, used_this: s.used_this.v, used_super: s.used_super.v, used: s.used_refs.keys@, declared: s.declared_refs.keys@,
        parent: ref_id(s.parent), children: ids(s.children.items@) }
}
#[derive(Clone, Copy)] pub enum Field { UsedRefs, DeclaredRefs, UsedThis, UsedSuper, Children }
pub struct FieldRef { pub id: Ghost<int>, pub field: Field }
pub open spec fn with_name<'ast>(s: ScopeState<'ast>, f: Field, n: &'ast str) -> ScopeState<'ast> {
    match f { Field::UsedRefs => ScopeState { used: s.used.insert(n), ..s }, Field::DeclaredRefs => ScopeState { declared: s.declared.insert(n), ..s }, _ => s }
}
pub open spec fn with_flag<'ast>(s: ScopeState<'ast>, f: Field, b: bool) -> ScopeState<'ast> {
    match f { Field::UsedThis => ScopeState { used_this: b, ..s }, Field::UsedSuper => ScopeState { used_super: b, ..s }, _ => s }
}
impl FieldRef {
    #[verifier::external_body]
    pub fn insert<'ast>(&self, arena: &mut Arena, key: &'ast str, val: ())
        requires 0 <= self.id@ < old(arena).heap().len(), self.field is UsedRefs || self.field is DeclaredRefs
        ensures final(arena).heap() == old(arena).heap().update(self.id@, with_name(old(arena).heap()[self.id@], self.field, key))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set<'ast>(&self, arena: &mut Arena, b: bool)
        requires 0 <= self.id@ < old(arena).heap().len(), self.field is UsedThis || self.field is UsedSuper
        ensures final(arena).heap() == old(arena).heap().update(self.id@, with_flag(old(arena).heap()[self.id@], self.field, b))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push<'ast>(&self, arena: &mut Arena, c: &'ast ScopeRef<'ast>)
        requires 0 <= self.id@ < old(arena).heap().len(), self.field is Children
        ensures final(arena).heap() == old(arena).heap().update(self.id@, ScopeState { children: old(arena).heap()[self.id@].children.push(c.id@), ..old(arena).heap()[self.id@] })
    { unimplemented!() }
}
impl FieldRef {
    #[verifier::external_body]
    pub fn contains_key<'ast>(&self, arena: &Arena, key: &'ast str) -> (r: bool)
        requires 0 <= self.id@ < arena.heap().len(), self.field is UsedRefs || self.field is DeclaredRefs
        ensures r == (if self.field is UsedRefs { arena.heap()[self.id@].used } else { arena.heap()[self.id@].declared }).contains(key)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self, arena: &Arena) -> (r: bool)
        requires 0 <= self.id@ < arena.heap().len(), self.field is UsedRefs || self.field is DeclaredRefs || self.field is Children
        ensures r == (if self.field is UsedRefs { arena.heap()[self.id@].used == Set::<&str>::empty() } else if self.field is DeclaredRefs { arena.heap()[self.id@].declared == Set::<&str>::empty() }
            else { arena.heap()[self.id@].children.len() == 0 })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, arena: &Arena) -> (r: bool)
        requires 0 <= self.id@ < arena.heap().len(), self.field is UsedThis || self.field is UsedSuper
        ensures r == (if self.field is UsedThis { arena.heap()[self.id@].used_this } else { arena.heap()[self.id@].used_super })
    { unimplemented!() }
}
impl<'ast> ScopeRef<'ast> {
    pub fn vx_used_refs(&self) -> (r: FieldRef) ensures r == (FieldRef { id: self.id, field: Field::UsedRefs }) { FieldRef { id: self.id, field: Field::UsedRefs } }
    pub fn vx_declared_refs(&self) -> (r: FieldRef) ensures r == (FieldRef { id: self.id, field: Field::DeclaredRefs }) { FieldRef { id: self.id, field: Field::DeclaredRefs } }
    pub fn vx_used_this(&self) -> (r: FieldRef) ensures r == (FieldRef { id: self.id, field: Field::UsedThis }) { FieldRef { id: self.id, field: Field::UsedThis } }
    pub fn vx_used_super(&self) -> (r: FieldRef) ensures r == (FieldRef { id: self.id, field: Field::UsedSuper }) { FieldRef { id: self.id, field: Field::UsedSuper } }
    pub fn vx_children(&self) -> (r: FieldRef) ensures r == (FieldRef { id: self.id, field: Field::Children }) { FieldRef { id: self.id, field: Field::Children } }
}

// what the events of a traversal make of the scopes
pub struct State<'ast> { pub heap: Seq<ScopeState<'ast>>, pub cur: int }
pub struct Trace<'ast> { pub start: State<'ast>, pub ev: Seq<RefEv<'ast>>, pub open: Seq<ScopeKind> }
pub open spec fn fresh<'ast>(kind: ScopeKind, parent: Option<int>) -> ScopeState<'ast> {
    ScopeState { kind, used_this: false, used_super: false, used: Set::empty(), declared: Set::empty(), parent, children: Seq::empty() }
}
pub open spec fn step<'ast>(s: State<'ast>, e: RefEv<'ast>) -> State<'ast> {
    let here = s.heap[s.cur];
    match e {
        RefEv::Use(n) => State { heap: s.heap.update(s.cur, ScopeState { used: here.used.insert(n), ..here }), ..s },
        RefEv::Decl(n) => State { heap: s.heap.update(s.cur, ScopeState { declared: here.declared.insert(n), ..here }), ..s },
        RefEv::This => State { heap: s.heap.update(s.cur, ScopeState { used_this: true, ..here }), ..s },
        RefEv::Enter(k) => State { heap: s.heap.push(fresh(k, Some(s.cur))), cur: s.heap.len() as int },
        RefEv::Leave => match here.parent {
            Some(p) => State { heap: s.heap.update(p, ScopeState { children: s.heap[p].children.push(s.cur), ..s.heap[p] }), cur: p },
            None => s,
        },
    }
}
pub open spec fn run<'ast>(s: State<'ast>, ev: Seq<RefEv<'ast>>) -> State<'ast>
    decreases ev.len()
{
    if ev.len() == 0 { s } else { step(run(s, ev.drop_last()), ev.last()) }
}
pub proof fn lemma_run<'ast>(s: State<'ast>, ev: Seq<RefEv<'ast>>, e: RefEv<'ast>)
    ensures run(s, ev.push(e)) == step(run(s, ev), e)
{
    assert(ev.push(e).drop_last() =~= ev);
}
/// the references agree with what the arena holds, up to the outermost scope
pub open spec fn linked<'ast>(h: Seq<ScopeState<'ast>>, r: ScopeRef<'ast>) -> bool
    decreases r
{
    &&& 0 <= r.id@ < h.len()
    &&& h[r.id@].parent == ref_id(r.parent)
    &&& match r.parent { Some(p) => p.id@ < r.id@ && linked(h, *p), None => true }
}
pub proof fn lemma_parent<'ast>(h: Seq<ScopeState<'ast>>, r: ScopeRef<'ast>)
    requires linked(h, r)
    ensures r.parent matches Some(p) ==> linked(h, *p) && 0 <= p.id@ < h.len()
{
}
pub open spec fn depth(r: ScopeRef) -> int
    decreases r
{
    match r.parent { Some(p) => 1 + depth(*p), None => 1 }
}
pub open spec fn root<'ast>(r: ScopeRef<'ast>) -> ScopeRef<'ast>
    decreases r
{
    match r.parent { Some(p) => root(*p), None => r }
}
pub proof fn lemma_linked<'ast>(h: Seq<ScopeState<'ast>>, h2: Seq<ScopeState<'ast>>, r: ScopeRef<'ast>)
    requires linked(h, r), h.len() <= h2.len(), forall|i: int| 0 <= i < h.len() ==> h2[i].parent == #[trigger] h[i].parent
    ensures linked(h2, r)
    decreases r
{
    match r.parent { Some(p) => lemma_linked(h, h2, *p), None => {} }
}
pub proof fn lemma_depth(r: ScopeRef)
    ensures depth(r) >= 1, depth(r) == 1 <==> r.parent is None
    decreases r
{
    match r.parent { Some(p) => lemma_depth(*p), None => {} }
}
pub open spec fn an_wf<'ast>(a: ScopeAnalyzer<'ast>) -> bool {
    &&& run(a.vx_g@.start, a.vx_g@.ev) == (State { heap: a.arena.heap(), cur: a.current.v.id@ })
    &&& linked(a.arena.heap(), *a.current.v)
    &&& depth(*a.current.v) == a.vx_g@.open.len() + 1
    &&& root(*a.current.v).id@ == a.vx_g@.start.cur && root(*a.current.v).kind is Function
}
/// after each callback: the trace grows, the arena follows
pub proof fn lemma_step<'ast>(a: ScopeAnalyzer<'ast>, h2: Seq<ScopeState<'ast>>, e: RefEv<'ast>)
    requires an_wf(a), a.arena.heap().len() <= h2.len(), forall|i: int| 0 <= i < a.arena.heap().len() ==> h2[i].parent == #[trigger] a.arena.heap()[i].parent
    ensures linked(h2, *a.current.v), run(a.vx_g@.start, a.vx_g@.ev.push(e)) == step(run(a.vx_g@.start, a.vx_g@.ev), e),
        a.current.v.parent matches Some(p) ==> linked(h2, *p) && linked(a.arena.heap(), *p)
{
    lemma_run(a.vx_g@.start, a.vx_g@.ev, e);
    lemma_linked(a.arena.heap(), h2, *a.current.v);
}
