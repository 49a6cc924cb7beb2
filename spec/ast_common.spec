//! the syntax tree, shared by the units on it
@take ast
@drop ast::node (rendered as the reference it holds)
@drop ast::statement::From*
@drop ast::expression::From*
@drop ast::PartialEq*
@drop ast::Deref*
@drop ast::Copy*
@drop ast::Loc::new
@drop ast::Program
@drop ast::function::Name* (only tells names apart)
@drop impl:Loc
@opt list_for yes
@opt no_decreases yes
@opt keep_while_let yes
@opt loop_isolation false
@derive Loc Clone, Copy


@rewrite rt :: begin_panic ( $x ) ~> vx_panic ( )
@rewrite :: std :: rt :: begin_panic ( $x ) ~> vx_panic ( )

@derive OperatorKind Clone, Copy, PartialEq, Eq, Structural
@rewrite : 'ast > ~> >
@rewrite : 'ast , ~> ,
@rewrite N : Name < 'zz > ~> N
@prelude
#[verifier::external_body] pub fn vx_panic() -> ! { unimplemented!() }
pub type Node<'ast, T> = &'ast Loc<T>;
pub enum List<'ast, T> { Nil, Cons(&'ast T, &'ast List<'ast, T>) }
impl<'ast, T> Copy for List<'ast, T> {}
impl<'ast, T> Clone for List<'ast, T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<'ast, T> List<'ast, T> {
    pub fn iter(&self) -> (r: List<'ast, T>) ensures r == *self { *self }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self is Nil) { match self { List::Nil => true, _ => false } }
    pub fn only_element(&self) -> (r: Option<&'ast T>) ensures r == (match *self { List::Cons(h, tl) if *tl is Nil => Some(h), _ => None }) { match *self { List::Cons(h, tl) if tl.is_empty() => Some(h), _ => None } }
    pub fn vx_list(&self) -> (r: List<'ast, T>) ensures r == *self { *self }
}
pub struct Module<'ast> { pub body: StatementList<'ast> }
impl<'ast> Module<'ast> {
    pub fn body(&self) -> (r: StatementList<'ast>) ensures r == self.body { self.body }
}
pub trait VxFrom<T>: Sized {
    spec fn mk(node: T) -> Self;
    fn vx_from(node: T) -> (r: Self) ensures r == Self::mk(node);
}
@end
