//! written by gen_astgen.py
@mono SerializeInLoc@Function<N> => N = EmptyName; OptionalName<'ast>; MandatoryName<'ast>
@mono SerializeInLoc@Class<N> => N = OptionalName<'ast>; MandatoryName<'ast>
