//! the syntax tree and the visits, shared by the units visitor and scope
@include ast_common.spec
@take visitor!*
@drop impl:Expression (unit operators)
@drop impl:OperatorKind (unit operators)
@rewrite block . body ~> block . item . body
@rewrite . cases . body ~> . cases . item . body
@rewrite . body . body ~> . body . item . body
@rewrite impl < 'zz > From < $x > for ParentNode ~> impl < 'ast > VxFrom < $x > for ParentNode
@rewrite ParentNode :: from ~> ParentNode :: vx_from
@rewrite fn from ~> fn vx_from
@rewrite type Parent = $x ; ~>
@rewrite type Parent ; ~>
@rewrite type Parent : $x ; ~>
@rewrite Visitable < 'zz > : 'ast ~> Visitable < 'ast >
@rewrite Visitable < 'zz > + Name < 'zz > ~> Visitable < 'ast >
@opt impl VxFrom<&StatementNode>@ParentNode open spec fn mk(node: &'ast StatementNode<'ast>) -> Self { ParentNode::Statement(node) }
@opt impl VxFrom<&ExpressionNode>@ParentNode open spec fn mk(node: &'ast ExpressionNode<'ast>) -> Self { ParentNode::Expression(node) }
@mono Visitable@Option<T> => T = ExpressionNode<'ast>; StatementNode<'ast>; Node<'ast, ForInit<'ast>>; Node<'ast, CatchClause<'ast>>; BlockNode<'ast, Statement<'ast>>
@mono Visitable@Node<T> => T = Pattern<'ast>; Property<'ast>; PropertyKey<'ast>; ClassMember<'ast>; Declarator<'ast>; SwitchCase<'ast>; CatchClause<'ast>; ForInit<'ast>; ForImportSpecifier<'ast>; Function<'ast, EmptyName>; TemplateLiteral<'ast>
@mono Visitable@NodeList<T> => T = Pattern<'ast>; Property<'ast>; ClassMember<'ast>; Declarator<'ast>; SwitchCase<'ast>; ForImportSpecifier<'ast>
@mono Visitable@Function<N> => N = EmptyName; OptionalName<'ast>; MandatoryName<'ast>
@mono Visitable@Class<N> => N = OptionalName<'ast>; MandatoryName<'ast>