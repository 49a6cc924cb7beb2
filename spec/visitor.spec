@source ratel visitor
@include visit_common.spec
@opt abstract Visitor
@include visitor_defs.rs
@include visitor_gen.spec
