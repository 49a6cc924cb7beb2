// written by gen_astgen.py: lists of nodes are exported in order
impl<'ast> Js for List<'ast, Node<'ast, Expression<'ast>>> {
    open spec fn js(&self) -> J { J::Arr(l_expr(*self)) }
    open spec fn ok(&self) -> bool { okl_expr(*self) }
}
impl<'ast> Serialize for List<'ast, Node<'ast, Expression<'ast>>> { #[verifier::external_body] fn serialize(&self, serializer: Ser) -> (ret: Result<Json, SerError>) { unimplemented!() } }
impl<'ast> Js for List<'ast, Node<'ast, Statement<'ast>>> {
    open spec fn js(&self) -> J { J::Arr(l_stmt(*self)) }
    open spec fn ok(&self) -> bool { okl_stmt(*self) }
}
impl<'ast> Serialize for List<'ast, Node<'ast, Statement<'ast>>> { #[verifier::external_body] fn serialize(&self, serializer: Ser) -> (ret: Result<Json, SerError>) { unimplemented!() } }
impl<'ast> Js for List<'ast, Node<'ast, Pattern<'ast>>> {
    open spec fn js(&self) -> J { J::Arr(l_pat(*self)) }
    open spec fn ok(&self) -> bool { okl_pat(*self) }
}
impl<'ast> Serialize for List<'ast, Node<'ast, Pattern<'ast>>> { #[verifier::external_body] fn serialize(&self, serializer: Ser) -> (ret: Result<Json, SerError>) { unimplemented!() } }
impl<'ast> Js for List<'ast, Node<'ast, Property<'ast>>> {
    open spec fn js(&self) -> J { J::Arr(l_prop(*self)) }
    open spec fn ok(&self) -> bool { okl_prop(*self) }
}
impl<'ast> Serialize for List<'ast, Node<'ast, Property<'ast>>> { #[verifier::external_body] fn serialize(&self, serializer: Ser) -> (ret: Result<Json, SerError>) { unimplemented!() } }
impl<'ast> Js for List<'ast, Node<'ast, ClassMember<'ast>>> {
    open spec fn js(&self) -> J { J::Arr(l_member(*self)) }
    open spec fn ok(&self) -> bool { okl_member(*self) }
}
impl<'ast> Serialize for List<'ast, Node<'ast, ClassMember<'ast>>> { #[verifier::external_body] fn serialize(&self, serializer: Ser) -> (ret: Result<Json, SerError>) { unimplemented!() } }
impl<'ast> Js for List<'ast, Node<'ast, Declarator<'ast>>> {
    open spec fn js(&self) -> J { J::Arr(l_declr(*self)) }
    open spec fn ok(&self) -> bool { okl_declr(*self) }
}
impl<'ast> Serialize for List<'ast, Node<'ast, Declarator<'ast>>> { #[verifier::external_body] fn serialize(&self, serializer: Ser) -> (ret: Result<Json, SerError>) { unimplemented!() } }
impl<'ast> Js for List<'ast, Node<'ast, SwitchCase<'ast>>> {
    open spec fn js(&self) -> J { J::Arr(l_case(*self)) }
    open spec fn ok(&self) -> bool { okl_case(*self) }
}
impl<'ast> Serialize for List<'ast, Node<'ast, SwitchCase<'ast>>> { #[verifier::external_body] fn serialize(&self, serializer: Ser) -> (ret: Result<Json, SerError>) { unimplemented!() } }
impl<'ast> Js for List<'ast, Node<'ast, ForImportSpecifier<'ast>>> {
    open spec fn js(&self) -> J { J::Arr(l_imp(*self)) }
    open spec fn ok(&self) -> bool { okl_imp(*self) }
}
impl<'ast> Serialize for List<'ast, Node<'ast, ForImportSpecifier<'ast>>> { #[verifier::external_body] fn serialize(&self, serializer: Ser) -> (ret: Result<Json, SerError>) { unimplemented!() } }
// plain values, and the two structs whose export is derived
impl Js for str {
    open spec fn js(&self) -> J { J::Str(self@) }
    open spec fn ok(&self) -> bool { true }
}
impl Serialize for str { #[verifier::external_body] fn serialize(&self, serializer: Ser) -> (ret: Result<Json, SerError>) { unimplemented!() } }
impl<'a> Js for &'a str {
    open spec fn js(&self) -> J { J::Str(self@) }
    open spec fn ok(&self) -> bool { true }
}
impl<'a> Serialize for &'a str { #[verifier::external_body] fn serialize(&self, serializer: Ser) -> (ret: Result<Json, SerError>) { unimplemented!() } }
impl Js for bool {
    open spec fn js(&self) -> J { J::Bool(*self) }
    open spec fn ok(&self) -> bool { true }
}
impl Serialize for bool { #[verifier::external_body] fn serialize(&self, serializer: Ser) -> (ret: Result<Json, SerError>) { unimplemented!() } }
impl Js for u32 {
    open spec fn js(&self) -> J { J::Int(*self as int) }
    open spec fn ok(&self) -> bool { true }
}
impl Serialize for u32 { #[verifier::external_body] fn serialize(&self, serializer: Ser) -> (ret: Result<Json, SerError>) { unimplemented!() } }
impl Js for i64 {
    open spec fn js(&self) -> J { J::Int(*self as int) }
    open spec fn ok(&self) -> bool { true }
}
impl Serialize for i64 { #[verifier::external_body] fn serialize(&self, serializer: Ser) -> (ret: Result<Json, SerError>) { unimplemented!() } }
impl Js for f64 {
    open spec fn js(&self) -> J { J::Real(*self) }
    open spec fn ok(&self) -> bool { true }
}
impl Serialize for f64 { #[verifier::external_body] fn serialize(&self, serializer: Ser) -> (ret: Result<Json, SerError>) { unimplemented!() } }
impl Js for () {
    open spec fn js(&self) -> J { J::Null }
    open spec fn ok(&self) -> bool { true }
}
impl Serialize for () { #[verifier::external_body] fn serialize(&self, serializer: Ser) -> (ret: Result<Json, SerError>) { unimplemented!() } }
impl Js for [(); 0] {
    open spec fn js(&self) -> J { J::Arr(Seq::empty()) }
    open spec fn ok(&self) -> bool { true }
}
impl Serialize for [(); 0] { #[verifier::external_body] fn serialize(&self, serializer: Ser) -> (ret: Result<Json, SerError>) { unimplemented!() } }
impl<'ast> Js for RegExLiteral<'ast> {
    open spec fn js(&self) -> J { J::Obj(Map::empty().insert(0x7061747465726eint, J::Str(self.pattern@)).insert(0x666c616773int, J::Str(self.flags@))) }
    open spec fn ok(&self) -> bool { true }
}
impl<'ast> Serialize for RegExLiteral<'ast> { #[verifier::external_body] fn serialize(&self, serializer: Ser) -> (ret: Result<Json, SerError>) { unimplemented!() } }
impl<'ast> Js for TemplateElementValue<'ast> {
    open spec fn js(&self) -> J { J::Obj(Map::empty().insert(0x726177int, J::Str(self.raw@)).insert(0x636f6f6b6564int, J::Str(self.cooked@))) }
    open spec fn ok(&self) -> bool { true }
}
impl<'ast> Serialize for TemplateElementValue<'ast> { #[verifier::external_body] fn serialize(&self, serializer: Ser) -> (ret: Result<Json, SerError>) { unimplemented!() } }
// written by gen_astgen.py
impl<'ast> JLoc for SequenceExpression<'ast> { open spec fn jf(&self) -> Map<int, J> { f_expr(Expression::Sequence(*self)) } open spec fn okl(&self) -> bool { okf_expr(Expression::Sequence(*self)) } }
impl<'ast> JLoc for ArrayExpression<'ast> { open spec fn jf(&self) -> Map<int, J> { f_expr(Expression::Array(*self)) } open spec fn okl(&self) -> bool { okf_expr(Expression::Array(*self)) } }
impl<'ast> JLoc for MemberExpression<'ast> { open spec fn jf(&self) -> Map<int, J> { f_expr(Expression::Member(*self)) } open spec fn okl(&self) -> bool { okf_expr(Expression::Member(*self)) } }
impl<'ast> JLoc for ComputedMemberExpression<'ast> { open spec fn jf(&self) -> Map<int, J> { f_expr(Expression::ComputedMember(*self)) } open spec fn okl(&self) -> bool { okf_expr(Expression::ComputedMember(*self)) } }
impl<'ast> JLoc for MetaPropertyExpression<'ast> { open spec fn jf(&self) -> Map<int, J> { f_expr(Expression::MetaProperty(*self)) } open spec fn okl(&self) -> bool { okf_expr(Expression::MetaProperty(*self)) } }
impl<'ast> JLoc for CallExpression<'ast> { open spec fn jf(&self) -> Map<int, J> { f_expr(Expression::Call(*self)) } open spec fn okl(&self) -> bool { okf_expr(Expression::Call(*self)) } }
impl<'ast> JLoc for BinaryExpression<'ast> { open spec fn jf(&self) -> Map<int, J> { f_expr(Expression::Binary(*self)) } open spec fn okl(&self) -> bool { okf_expr(Expression::Binary(*self)) } }
impl<'ast> JLoc for PrefixExpression<'ast> { open spec fn jf(&self) -> Map<int, J> { f_expr(Expression::Prefix(*self)) } open spec fn okl(&self) -> bool { okf_expr(Expression::Prefix(*self)) } }
impl<'ast> JLoc for PostfixExpression<'ast> { open spec fn jf(&self) -> Map<int, J> { f_expr(Expression::Postfix(*self)) } open spec fn okl(&self) -> bool { okf_expr(Expression::Postfix(*self)) } }
impl<'ast> JLoc for ConditionalExpression<'ast> { open spec fn jf(&self) -> Map<int, J> { f_expr(Expression::Conditional(*self)) } open spec fn okl(&self) -> bool { okf_expr(Expression::Conditional(*self)) } }
impl<'ast> JLoc for TaggedTemplateExpression<'ast> { open spec fn jf(&self) -> Map<int, J> { f_expr(Expression::TaggedTemplate(*self)) } open spec fn okl(&self) -> bool { okf_expr(Expression::TaggedTemplate(*self)) } }
impl<'ast> JLoc for SpreadExpression<'ast> { open spec fn jf(&self) -> Map<int, J> { f_expr(Expression::Spread(*self)) } open spec fn okl(&self) -> bool { okf_expr(Expression::Spread(*self)) } }
impl<'ast> JLoc for ArrowExpression<'ast> { open spec fn jf(&self) -> Map<int, J> { f_expr(Expression::Arrow(*self)) } open spec fn okl(&self) -> bool { okf_expr(Expression::Arrow(*self)) } }
impl<'ast> JLoc for ObjectExpression<'ast> { open spec fn jf(&self) -> Map<int, J> { f_expr(Expression::Object(*self)) } open spec fn okl(&self) -> bool { okf_expr(Expression::Object(*self)) } }
impl<'ast> JLoc for IfStatement<'ast> { open spec fn jf(&self) -> Map<int, J> { f_stmt(Statement::If(*self)) } open spec fn okl(&self) -> bool { okf_stmt(Statement::If(*self)) } }
impl<'ast> JLoc for ForStatement<'ast> { open spec fn jf(&self) -> Map<int, J> { f_stmt(Statement::For(*self)) } open spec fn okl(&self) -> bool { okf_stmt(Statement::For(*self)) } }
impl<'ast> JLoc for ForInStatement<'ast> { open spec fn jf(&self) -> Map<int, J> { f_stmt(Statement::ForIn(*self)) } open spec fn okl(&self) -> bool { okf_stmt(Statement::ForIn(*self)) } }
impl<'ast> JLoc for ForOfStatement<'ast> { open spec fn jf(&self) -> Map<int, J> { f_stmt(Statement::ForOf(*self)) } open spec fn okl(&self) -> bool { okf_stmt(Statement::ForOf(*self)) } }
impl<'ast> JLoc for TryStatement<'ast> { open spec fn jf(&self) -> Map<int, J> { f_stmt(Statement::Try(*self)) } open spec fn okl(&self) -> bool { okf_stmt(Statement::Try(*self)) } }
impl<'ast> JLoc for LabeledStatement<'ast> { open spec fn jf(&self) -> Map<int, J> { f_stmt(Statement::Labeled(*self)) } open spec fn okl(&self) -> bool { okf_stmt(Statement::Labeled(*self)) } }
impl<'ast> JLoc for SwitchStatement<'ast> { open spec fn jf(&self) -> Map<int, J> { f_stmt(Statement::Switch(*self)) } open spec fn okl(&self) -> bool { okf_stmt(Statement::Switch(*self)) } }
impl<'ast> JLoc for ImportDeclaration<'ast> { open spec fn jf(&self) -> Map<int, J> { f_stmt(Statement::Import(*self)) } open spec fn okl(&self) -> bool { okf_stmt(Statement::Import(*self)) } }
impl<'ast> JLoc for Expression<'ast> { open spec fn jf(&self) -> Map<int, J> { f_expr(*self) } open spec fn okl(&self) -> bool { okf_expr(*self) } }
impl<'ast> JLoc for Statement<'ast> { open spec fn jf(&self) -> Map<int, J> { f_stmt(*self) } open spec fn okl(&self) -> bool { okf_stmt(*self) } }
impl<'ast> JLoc for Pattern<'ast> { open spec fn jf(&self) -> Map<int, J> { f_pat(*self) } open spec fn okl(&self) -> bool { okf_pat(*self) } }
impl<'ast> JLoc for Property<'ast> { open spec fn jf(&self) -> Map<int, J> { f_prop(*self) } open spec fn okl(&self) -> bool { okf_prop(*self) } }
impl<'ast> JLoc for ClassMember<'ast> { open spec fn jf(&self) -> Map<int, J> { f_member(*self) } open spec fn okl(&self) -> bool { okf_member(*self) } }
impl<'ast> JLoc for Declarator<'ast> { open spec fn jf(&self) -> Map<int, J> { f_declr(*self) } open spec fn okl(&self) -> bool { okf_declr(*self) } }
impl<'ast> JLoc for DeclarationStatement<'ast> { open spec fn jf(&self) -> Map<int, J> { f_declaration(*self) } open spec fn okl(&self) -> bool { okf_declaration(*self) } }
impl<'ast> JLoc for SwitchCase<'ast> { open spec fn jf(&self) -> Map<int, J> { f_case(*self) } open spec fn okl(&self) -> bool { okf_case(*self) } }
impl<'ast> JLoc for CatchClause<'ast> { open spec fn jf(&self) -> Map<int, J> { f_catch(*self) } open spec fn okl(&self) -> bool { okf_catch(*self) } }
impl<'ast> JLoc for ForInit<'ast> { open spec fn jf(&self) -> Map<int, J> { f_forinit(*self) } open spec fn okl(&self) -> bool { okf_forinit(*self) } }
impl<'ast> JLoc for ForImportSpecifier<'ast> { open spec fn jf(&self) -> Map<int, J> { f_imp(*self) } open spec fn okl(&self) -> bool { okf_imp(*self) } }
impl<'ast> JLoc for BlockStatement<'ast> { open spec fn jf(&self) -> Map<int, J> { f_block(*self) } open spec fn okl(&self) -> bool { okf_block(*self) } }
impl<'ast> JLoc for Block<'ast, ClassMember<'ast>> { open spec fn jf(&self) -> Map<int, J> { f_mblock(*self) } open spec fn okl(&self) -> bool { okf_mblock(*self) } }
impl<'ast> JLoc for TemplateLiteral<'ast> { open spec fn jf(&self) -> Map<int, J> { f_tpl(*self) } open spec fn okl(&self) -> bool { okf_tpl(*self) } }
impl<'ast> JLoc for Literal<'ast> { open spec fn jf(&self) -> Map<int, J> { f_lit(*self) } open spec fn okl(&self) -> bool { okf_lit(*self) } }
impl<'ast> JLoc for &'ast str { open spec fn jf(&self) -> Map<int, J> { f_ident(*self) } open spec fn okl(&self) -> bool { true } }
impl<'ast> JLoc for Function<'ast, EmptyName> { open spec fn jf(&self) -> Map<int, J> { f_func(*self) } open spec fn okl(&self) -> bool { okf_func(*self) } }
impl<'ast> JLoc for Function<'ast, OptionalName<'ast>> { open spec fn jf(&self) -> Map<int, J> { f_func(*self) } open spec fn okl(&self) -> bool { okf_func(*self) } }
impl<'ast> JLoc for Class<'ast, OptionalName<'ast>> { open spec fn jf(&self) -> Map<int, J> { f_class(*self) } open spec fn okl(&self) -> bool { okf_class(*self) } }
impl<'ast> JLoc for Function<'ast, MandatoryName<'ast>> { open spec fn jf(&self) -> Map<int, J> { f_func(*self) } open spec fn okl(&self) -> bool { okf_func(*self) } }
impl<'ast> JLoc for Class<'ast, MandatoryName<'ast>> { open spec fn jf(&self) -> Map<int, J> { f_class(*self) } open spec fn okl(&self) -> bool { okf_class(*self) } }
impl<'ast> JLoc for TemplateElement<'ast> { open spec fn jf(&self) -> Map<int, J> { f_quasi(self.tail, self.value) } open spec fn okl(&self) -> bool { true } }
impl<'ast, T: JLoc> Js for Loc<T> { open spec fn js(&self) -> J { placed(self.item.jf(), self.start as int, self.end as int) } open spec fn ok(&self) -> bool { self.item.okl() } }
impl<'ast, T: JLoc> Js for &'ast Loc<T> { open spec fn js(&self) -> J { placed(self.item.jf(), self.start as int, self.end as int) } open spec fn ok(&self) -> bool { self.item.okl() } }
impl<'ast> Js for Module<'ast> { open spec fn js(&self) -> J { program(self.body) } open spec fn ok(&self) -> bool { okl_stmt(self.body) } }
impl<'ast> Js for Loc<Block<'ast, SwitchCase<'ast>>> { open spec fn js(&self) -> J { J::Arr(l_case(self.item.body)) } open spec fn ok(&self) -> bool { okl_case(self.item.body) } }
impl<'ast> Js for Loc<ArrowBody<'ast>> { open spec fn js(&self) -> J { n_arrow(self.item) } open spec fn ok(&self) -> bool { okn_arrow(self.item) } }
impl<'ast> Js for Loc<PropertyKey<'ast>> { open spec fn js(&self) -> J { n_key(self) } open spec fn ok(&self) -> bool { okn_key(self) } }
impl<'ast> Js for DeclarationKind { open spec fn js(&self) -> J { declaration_kind(*self) } open spec fn ok(&self) -> bool { true } }
impl<'ast> Js for MethodKind { open spec fn js(&self) -> J { method_kind(*self) } open spec fn ok(&self) -> bool { true } }
impl<'ast> Js for OperatorKind { open spec fn js(&self) -> J { J::Str(op_name(*self)) } open spec fn ok(&self) -> bool { true } }
impl<'ast> Js for ForInit<'ast> { open spec fn js(&self) -> J { (match *self { ForInit::Declaration(d) => J::Obj(f_declaration(d)), ForInit::Expression(k) => placed(f_expr((k).item), (k).start as int, (k).end as int) }) } open spec fn ok(&self) -> bool { okf_forinit(*self) } }
impl<'ast> Js for EmptyName { open spec fn js(&self) -> J { self.jn() } open spec fn ok(&self) -> bool { true } }
impl<'ast> Js for OptionalName<'ast> { open spec fn js(&self) -> J { self.jn() } open spec fn ok(&self) -> bool { true } }
impl<'ast> Js for MandatoryName<'ast> { open spec fn js(&self) -> J { self.jn() } open spec fn ok(&self) -> bool { true } }
impl<'ast> Js for TemplateQuasis<'ast> { open spec fn js(&self) -> J { J::Arr(l_quasis(self.0)) } open spec fn ok(&self) -> bool { okl_quasis(self.0) } }
