@source ratel visitor transformer
@include visit_common.spec
@take transformer!TransformerCtxt*
@take transformer!transform
@take transformer!es2015*
@drop TransformerCtxt::alloc (used by nothing)
@drop TransformerCtxt::list (used by nothing)
@include transform_defs.rs
@include transform_gen.spec
@include transform_model.rs

@rewrite pub struct Loc < T > { $x } ~> pub struct Loc < T > { pub cell : Ghost < int > , $x }
@rewrite Loc { start : $x , end : $y , item : $z , } ~> Loc :: new ( $x , $y , $z )
@rewrite pub scope : & 'ast Scope < 'ast > , ~>
@rewrite scope : arena . alloc ( $x ) , ~>
@rewrite & 'ast Arena ~> Arena < 'ast >
@rewrite fn replace ( & self , $x ) ~> fn replace ( & mut self , $x )
@rewrite ptr . set ( $x ) ~> self . arena . vx_set ( ptr , $x )
@rewrite Node :: new ( $x ) ~> vx_node ( $x )
@rewrite item . into ( ) ~> VxFrom :: vx_from ( item )
@rewrite NodeList :: from ( self . ctx . arena , $x ) ~> vx_list ( & self . ctx . arena , $x )
@rewrite match expr . item ~> match self . ctx . arena . vx_read ( expr ) . item
@rewrite * expr ~> self . ctx . arena . vx_copy ( expr )
@rewrite match self . item ~> match vx_get ( self , visitor ) . item
@rewrite match node . item ~> match vx_get ( node , visitor ) . item

@opt impl Visitor@TransformArrow open spec fn heap(&self) -> Heap<'ast> { self.ctx.arena.heap() }
@rewrite pub fn swap < T , I > ( & self , ptr : & Node < 'ast , T > , item : I ) -> Node < 'ast , T > where T : Copy + 'ast , I : Into < T > ~> pub fn swap < I > ( & mut self , ptr : & ExpressionNode < 'ast > , item : I ) -> ExpressionNode < 'ast > where Expression < 'ast > : VxFrom < I >
@rewrite where T : Copy + 'ast , I : Into < T > ~> where T : VxFrom < I >
@rewrite module : & 'ast mut Module < 'ast > ~> module : & Module < 'ast >
@rewrite module . visit_with ( & mut $x ) ; ~> let mut vx_v = $x ; module . visit_with ( & mut vx_v ) ; Ghost ( vx_v . heap ( ) )
@rewrite pub fn transform < 'ast > ( $x ) ~> pub fn transform < 'ast > ( $x ) -> Ghost < Heap < 'ast > >

@fn TransformerCtxt::alloc_as_loc -> ret [T01]
    ensures ret.item == T::mk(item)
@fn TransformerCtxt::swap -> ret [T01]
    ensures exists|v: ExpressionNode<'ast>| v.item == <Expression<'ast> as VxFrom<I>>::mk(item) && ret.item == v.item && #[trigger] old(self).arena.heap().insert(*ptr, v) == final(self).arena.heap()
    ensures forall|k: ExpressionNode<'ast>| #[trigger] was_set(final(self).arena.heap(), k) ==> k == *ptr || was_set(old(self).arena.heap(), k)
    ensures ({ let (h, v) = (old(self).arena.heap(), <Expression<'ast> as VxFrom<I>>::mk(item));
        good(h) && ptr.item is Arrow && !was_set(h, *ptr) && v is Function && low(h, ptr.item->Arrow_0, v->Function_0) ==> good(final(self).arena.heap()) && le(h, final(self).arena.heap()) })
    proof_end:
        let vx_h = old(self).arena.heap();
        let vx_v = self.arena.heap()[*ptr];
        if good(vx_h) && ptr.item is Arrow && !was_set(vx_h, *ptr) && vx_v.item is Function && low(vx_h, ptr.item->Arrow_0, vx_v.item->Function_0) { lemma_set(vx_h, *ptr, vx_v); }
@fn TransformArrow::new -> ret [T01]
    ensures ret.ctx == ctx
@fn TransformArrow::replace -> ret [T01]
    requires good(old(self).heap()), !was_set(old(self).heap(), *ptr), ptr.item == Expression::Arrow(*node)
    ensures good(final(self).heap()), le(old(self).heap(), final(self).heap()), was_set(final(self).heap(), *ptr), ret.item is Function, ret.item == read(final(self).heap(), *ptr).item
    ensures forall|k: ExpressionNode<'ast>| #[trigger] was_set(final(self).heap(), k) ==> was_set(old(self).heap(), k) || depth(k) <= depth(*ptr)
    decreases *node
    proof:
        if let ArrowBody::Expression(e) = node.body { assert(depth(*ptr) == depth(e) + 1); }
@fn transform -> ret [T01]
    ensures good(ret@), forall|k: ExpressionNode<'ast>| #[trigger] arr_body(module.body, k) ==> was_set(ret@, k)
@fn Visitable@ExpressionNode::visit_with
    proof_end:
        if was_set(old(visitor).heap(), *self) { lemma_seen(visitor.heap(), *self); }
