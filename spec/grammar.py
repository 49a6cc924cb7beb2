# The grammar of the supported JavaScript. Ranks order rules that may call each other on the same token.
ANY = -1
rule("program", "", "Seq<%s>" % St, 40, """
l <- program_rest(Seq::empty())
ret l
""")
rule("program_rest", "acc: Seq<%s>" % St, "Seq<%s>" % St, 30, """
if at EndOfProgram:
    ret acc
else:
    x <= statement()
    r <- program_rest(acc.push(x))
    ret r
""")
rule("statements", "acc: Seq<%s>" % St, "Seq<%s>" % St, 30, """
if at BraceClose|EndOfProgram:
    ret acc
else:
    x <= statement()
    r <- statements(acc.push(x))
    ret r
""")
rule("semi", "", "()", 1, """
if asi(@here_tok) is ExplicitSemicolon:
    skip
    ret ()
elif asi(@here_tok) is ImplicitSemicolon:
    ret ()
else:
    fail
""".replace("@here_tok", "at(s, @here)"))
rule("expression_statement", "", St, 24, """
x <- head(0)
r <- expression_end(x)
ret r
""")
rule("expression_end", "left: %s" % Ex, St, 22, """
r <- tail(left, -1)
u <- semi()
ret nd(Statement::Expression(r))
""")
rule("ident", "", "IdentifierNode<'a>", 1, """
let n = @text
tok Identifier
ret nd(n)
""")
rule("block_end", "", "()", 1, """
tok BraceClose
ret ()
""")
rule("statement", "", St, 28, """
if at Semicolon:
    skip
    ret nd(Statement::Empty)
elif at BraceOpen:
    skip
    b <- statements(Seq::empty())
    tok BraceClose
    ret nd(Statement::Block(Block { body: lst(b) }))
elif at ParenOpen|BracketOpen|OperatorNew|OperatorDivision|This|LiteralTrue|LiteralFalse|LiteralNull|LiteralUndefined|LiteralString|LiteralNumber|LiteralBinary|TemplateOpen|TemplateClosed || is_unary(@kind):
    r <- expression_statement()
    ret r
elif at DeclarationVar:
    r <- variable(DeclarationKind::Var)
    ret r
elif at DeclarationLet:
    r <- variable(DeclarationKind::Let)
    ret r
elif at DeclarationConst:
    r <- variable(DeclarationKind::Const)
    ret r
elif at Break:
    skip
    l <- label()
    ret nd(Statement::Break(BreakStatement { label: l }))
elif at Continue:
    skip
    l <- label()
    ret nd(Statement::Continue(ContinueStatement { label: l }))
elif at Return:
    skip
    r <- return_value()
    ret nd(Statement::Return(ReturnStatement { value: r }))
elif at Throw:
    skip
    e <- expr(-1, 0)
    u <- semi()
    ret nd(Statement::Throw(ThrowStatement { value: e }))
elif at Function:
    skip
    f <- function_mandatory()
    ret nd(Statement::Function(f))
elif at Class:
    skip
    f <- class_mandatory()
    ret nd(Statement::Class(f))
elif at If:
    r <- if_statement()
    ret r
elif at While:
    skip
    tok ParenOpen
    e <- expr(-1, 0)
    tok ParenClose
    b <- statement()
    ret nd(Statement::While(WhileStatement { test: e, body: b }))
elif at Do:
    r <- do_statement()
    ret r
elif at For:
    r <- for_statement()
    ret r
elif at Switch:
    skip
    tok ParenOpen
    e <- expr(-1, 0)
    tok ParenClose
    b <- block_case()
    ret nd(Statement::Switch(SwitchStatement { discriminant: e, cases: b }))
elif at Try:
    r <- try_statement()
    ret r
elif at Identifier:
    r <- labeled()
    ret r
elif at Import:
    r <- import()
    ret r
elif at Debugger:
    skip
    u <- semi()
    ret nd(Statement::Debugger)
else:
    fail
""")
rule("labeled", "", St, 24, """
let label = @text
step
if at Colon:
    skip
    b <- statement()
    ret nd(Statement::Labeled(LabeledStatement { label, body: b }))
else:
    r <- tail(nd(Expression::Identifier(label)), -1)
    u <- semi()
    ret nd(Statement::Expression(r))
""")
rule("variable", "kind: DeclarationKind", St, 26, """
step
d <- declarators()
u <- semi()
ret nd(Statement::Declaration(DeclarationStatement { kind, declarators: d }))
""")
rule("declarators", "", "NodeList<'a, Declarator<'a>>", 25, """
r <- declarators_more(Seq::empty())
ret r
""")
rule("declarators_more", "acc: Seq<Node<'a, Declarator<'a>>>", "NodeList<'a, Declarator<'a>>", 24, """
d <- declarator()
if at Comma:
    skip
    r <- declarators_more(acc.push(d))
    ret r
else:
    ret lst(acc.push(d))
""")
rule("declarator", "", "Node<'a, Declarator<'a>>", 23, """
id <- pattern()
if at OperatorAssign:
    skip
    e <- expr(0, 0)
    ret nd(Declarator { id, init: Some(e) })
else:
    ret nd(Declarator { id, init: None })
""")
rule("label", "", "Option<IdentifierNode<'a>>", 24, """
if asi(at(s, @here)) is NoSemicolon:
    l <- ident()
    u <- semi()
    ret Some(l)
else:
    u <- semi()
    ret None
""")
rule("return_value", "", "Option<%s>" % Ex, 24, """
if asi(at(s, @here)) is NoSemicolon:
    e <- expr(-1, 0)
    u <- semi()
    ret Some(e)
else:
    u <- semi()
    ret None
""")
rule("if_statement", "", St, 24, """
step
tok ParenOpen
e <- expr(-1, 0)
tok ParenClose
a <- statement()
if at Else:
    skip
    b <- statement()
    ret nd(Statement::If(IfStatement { test: e, consequent: a, alternate: Some(b) }))
else:
    ret nd(Statement::If(IfStatement { test: e, consequent: a, alternate: None }))
""")
rule("do_statement", "", St, 24, """
step
b <- statement()
tok While
tok ParenOpen
e <- expr(-1, 0)
tok ParenClose
if at Semicolon:
    skip
    ret nd(Statement::Do(DoStatement { body: b, test: e }))
else:
    ret nd(Statement::Do(DoStatement { body: b, test: e }))
""")
rule("try_statement", "", St, 24, """
step
b <- block()
if at Catch:
    skip
    tok ParenOpen
    p <- pattern()
    tok ParenClose
    c <- block()
    let h = nd(CatchClause { param: p, body: c })
    if at Finally:
        skip
        f <- block()
        ret nd(Statement::Try(TryStatement { block: b, handler: Some(h), finalizer: Some(f) }))
    else:
        ret nd(Statement::Try(TryStatement { block: b, handler: Some(h), finalizer: None }))
elif at Finally:
    skip
    f <- block()
    ret nd(Statement::Try(TryStatement { block: b, handler: None, finalizer: Some(f) }))
else:
    fail
""")
rule("for_init", "kind: DeclarationKind", "Node<'a, ForInit<'a>>", 26, """
step
d <- declarators()
ret nd(ForInit::Declaration(DeclarationStatement { kind, declarators: d }))
""")
rule("for_statement", "", St, 27, """
step
tok ParenOpen
if at Semicolon:
    skip
    r <- for_rest(None)
    ret r
else:
    x <- for_first()
    r <- for_head(x)
    ret r
""")
rule("for_first", "", "Node<'a, ForInit<'a>>", 27, """
if at DeclarationVar:
    x <- for_init(DeclarationKind::Var)
    ret x
elif at DeclarationLet:
    x <- for_init(DeclarationKind::Let)
    ret x
elif at DeclarationConst:
    x <- for_init(DeclarationKind::Const)
    ret x
else:
    x <- expr(110, 0)
    if at OperatorIn:
        ret nd(ForInit::Expression(x))
    else:
        y <- tail(x, -1)
        ret nd(ForInit::Expression(y))
""")
rule("for_head", "init: Node<'a, ForInit<'a>>", St, 3, """
if at OperatorIn:
    skip
    r <- for_in(init)
    ret r
elif at Identifier && @text == "of":
    skip
    r <- for_of(init)
    ret r
else:
    tok Semicolon
    r <- for_rest(Some(init))
    ret r
""")
for _n, _v in (("in", "In"), ("of", "Of")):
    rule("for_" + _n, "left: Node<'a, ForInit<'a>>", St, 29, """
e <- expr(-1, 0)
tok ParenClose
b <- statement()
ret nd(Statement::For%s(For%sStatement { left, right: e, body: b }))
""" % (_v, _v))
rule("for_rest", "init: Option<Node<'a, ForInit<'a>>>", St, 29, """
t <- for_test()
u <- for_update()
b <- statement()
ret nd(Statement::For(ForStatement { init, test: t, update: u, body: b }))
""")
for _n, _k in (("test", "Semicolon"), ("update", "ParenClose")):
    rule("for_" + _n, "", "Option<%s>" % Ex, 29, """
if at %s:
    skip
    ret None
else:
    e <- expr(-1, 0)
    tok %s
    ret Some(e)
""" % (_k, _k))
rule("block", "", "BlockNode<'a, Statement<'a>>", 8, """
tok BraceOpen
b <- statements(Seq::empty())
tok BraceClose
ret nd(Block { body: lst(b) })
""")
rule("block_case", "", "BlockNode<'a, SwitchCase<'a>>", 8, """
tok BraceOpen
b <- cases(Seq::empty())
tok BraceClose
ret nd(Block { body: lst(b) })
""")
rule("cases", "acc: Seq<Node<'a, SwitchCase<'a>>>", "Seq<Node<'a, SwitchCase<'a>>>", 30, """
if at BraceClose|EndOfProgram:
    ret acc
else:
    x <= case()
    r <- cases(acc.push(x))
    ret r
""")
rule("case", "", "Node<'a, SwitchCase<'a>>", 29, """
if at Case:
    skip
    e <- expr(-1, 0)
    tok Colon
    l <- case_body(Seq::empty())
    ret nd(SwitchCase { test: Some(e), consequent: lst(l) })
else:
    tok Default
    tok Colon
    l <- case_body(Seq::empty())
    ret nd(SwitchCase { test: None, consequent: lst(l) })
""")
rule("case_body", "acc: Seq<%s>" % St, "Seq<%s>" % St, 30, """
if at Case|Default|BraceClose|EndOfProgram:
    ret acc
else:
    x <= statement()
    r <- case_body(acc.push(x))
    ret r
""")
IMP = "Seq<Node<'a, ForImportSpecifier<'a>>>"
rule("import", "", St, 24, """
let name = @text
step
if at Comma|ParenOpen:
    r <- tail(nd(Expression::Identifier(name)), -1)
    u <- semi()
    ret nd(Statement::Expression(r))
elif at LiteralString:
    let source = unquote(@text)
    skip
    u <- semi()
    ret nd(Statement::Import(ImportDeclaration { specifiers: lst(Seq::empty()), source }))
elif at Identifier:
    let d = nd(ForImportSpecifier::ImportDefaultSpecifier(ImportDefaultSpecifier { local: nd(@text) }))
    skip
    if at Comma:
        skip
        r <- import_clause(Seq::empty().push(d))
        ret r
    else:
        r <- import_from(Seq::empty().push(d))
        ret r
else:
    r <- import_clause(Seq::empty())
    ret r
""")
rule("import_clause", "acc: " + IMP, St, 5, """
if at BraceOpen:
    skip
    r <- import_names(acc)
    ret r
elif at OperatorMultiplication:
    skip
    guard at Identifier && @text == "as"
    skip
    let d = nd(ForImportSpecifier::ImportNamespaceSpecifier(ImportNamespaceSpecifier { local: nd(@text) }))
    tok Identifier
    r <- import_from(acc.push(d))
    ret r
else:
    fail
""")
rule("import_names", "acc: " + IMP, St, 5, """
let imported = nd(@text)
tok Identifier
if at Identifier && @text == "as":
    skip
    let d = nd(ForImportSpecifier::ImportSpecifier(ImportSpecifier { imported, local: nd(@text) }))
    tok Identifier
    r <- import_next(acc.push(d))
    ret r
else:
    let d = nd(ForImportSpecifier::ImportSpecifier(ImportSpecifier { imported, local: imported }))
    r <- import_next(acc.push(d))
    ret r
""")
rule("import_next", "acc: " + IMP, St, 5, """
if at Comma:
    skip
    r <- import_names(acc)
    ret r
else:
    tok BraceClose
    r <- import_from(acc)
    ret r
""")
rule("import_from", "acc: " + IMP, St, 3, """
guard at Identifier && @text == "from"
skip
let source = unquote(@text)
tok LiteralString
u <- semi()
ret nd(Statement::Import(ImportDeclaration { specifiers: lst(acc), source }))
""")

# ---- functions, classes, patterns
for _n, _t in (("empty", "EmptyName"), ("optional", "OptionalName<'a>"), ("mandatory", "MandatoryName<'a>")):
    _name = {"empty": "let name = EmptyName", "optional": "name <- optional_name()", "mandatory": "name <- mandatory_name()"}[_n]
    rule("function_" + _n, "", "Function<'a, %s>" % _t, 12, """
if at OperatorMultiplication:
    skip
    let generator = true
else:
    let generator = false
%s
ps <- params()
b <- block()
ret Function { name, generator, params: lst(ps), body: b }
""" % _name)
    if _n != "empty":
        rule("class_" + _n, "", "Class<'a, %s>" % _t, 12, """
%s
if at Extends:
    skip
    e <- expr(0, 0)
    let extends = Some(e)
else:
    let extends = None
b <- block_member()
ret Class { name, extends, body: b }
""" % _name)
rule("optional_name", "", "OptionalName<'a>", 2, """
if at Identifier:
    let n = @text
    skip
    ret OptionalName(Some(nd(n)))
else:
    ret OptionalName(None)
""")
rule("mandatory_name", "", "MandatoryName<'a>", 2, """
let n = @text
tok Identifier
ret MandatoryName(nd(n))
""")
MB = "Node<'a, ClassMember<'a>>"
rule("block_member", "", "BlockNode<'a, ClassMember<'a>>", 8, """
tok BraceOpen
b <- members(Seq::empty())
tok BraceClose
ret nd(Block { body: lst(b) })
""")
rule("members", "acc: Seq<%s>" % MB, "Seq<%s>" % MB, 30, """
if at BraceClose|EndOfProgram:
    ret acc
else:
    x <= member()
    r <- members(acc.push(x))
    ret r
""")
rule("member", "", MB, 29, """
if at Static:
    skip
    let is_static = true
else:
    let is_static = false
r <- member_named(is_static)
ret r
""")
rule("member_named", "is_static: bool", MB, 28, """
if word:
    let label = @text
    skip
    if word:
        let key = nd(PropertyKey::Literal(@text))
        skip
        if label == "get":
            r <- member_rest(is_static, MethodKind::Get, key)
            ret r
        elif label == "set":
            r <- member_rest(is_static, MethodKind::Set, key)
            ret r
        else:
            fail
    else:
        let kind = if !is_static && label == "constructor" { MethodKind::Constructor } else { MethodKind::Method }
        r <- member_rest(is_static, kind, nd(PropertyKey::Literal(label)))
        ret r
elif at LiteralNumber:
    let n = @text
    skip
    r <- member_rest(is_static, MethodKind::Method, nd(PropertyKey::Literal(n)))
    ret r
elif at LiteralBinary:
    let n = @text
    skip
    r <- member_rest(is_static, MethodKind::Method, nd(PropertyKey::Binary(n)))
    ret r
elif at BracketOpen:
    skip
    e <- expr(-1, 0)
    tok BracketClose
    r <- member_rest(is_static, MethodKind::Method, nd(PropertyKey::Computed(e)))
    ret r
else:
    fail
""")
rule("member_rest", "is_static: bool, kind: MethodKind, key: Node<'a, PropertyKey<'a>>", MB, 27, """
if at ParenOpen:
    v <- function_empty()
    let m = nd(ClassMember::Method { is_static, key, kind, value: nd(v) })
else:
    tok OperatorAssign
    e <- expr(0, 0)
    let m = nd(ClassMember::Literal { is_static, key, value: e })
if at Semicolon:
    skip
    ret m
else:
    ret m
""")
rule("params", "", "Seq<%s>" % Pt, 11, """
tok ParenOpen
r <- params_next(Seq::empty())
ret r
""")
rule("params_next", "acc: Seq<%s>" % Pt, "Seq<%s>" % Pt, 14, """
if at ParenClose:
    skip
    ret acc
elif at OperatorSpread:
    p <- rest_element()
    ret acc.push(p)
else:
    p <- param()
    r <- params_rest(acc.push(p))
    ret r
""")
rule("params_rest", "acc: Seq<%s>" % Pt, "Seq<%s>" % Pt, 12, """
if at Comma:
    skip
    r <- params_next(acc)
    ret r
else:
    tok ParenClose
    ret acc
""")
rule("rest_element", "", Pt, 5, """
step
let n = nd(@text)
tok Identifier
tok ParenClose
ret nd(Pattern::RestElement { argument: n })
""")
rule("param", "", Pt, 13, """
p <- pattern()
r <- pattern_assign(p)
ret r
""")
rule("pattern_assign", "left: %s" % Pt, Pt, 5, """
if at OperatorAssign:
    skip
    e <- expr(0, 0)
    ret nd(Pattern::AssignmentPattern { left, right: e })
else:
    ret left
""")
rule("pattern", "", Pt, 12, """
if at Identifier:
    let n = @text
    skip
    ret nd(Pattern::Identifier(n))
elif at BracketOpen:
    r <- pattern_array()
    ret r
elif at BraceOpen:
    r <- pattern_object()
    ret r
else:
    fail
""")
rule("pattern_array", "", Pt, 11, """
step
l <- pattern_items()
tok BracketClose
ret nd(Pattern::ArrayPattern { elements: lst(l) })
""")
rule("pattern_object", "", Pt, 11, """
step
l <- properties()
tok BraceClose
ret nd(Pattern::ObjectPattern { properties: lst(l) })
""")
rule("pattern_item", "", Pt, 13, """
if at Comma|BracketClose:
    ret nd(Pattern::Void)
else:
    r <- param()
    ret r
""".replace("param()", "param()"))
RULES["pattern_item"] = (RULES["pattern_item"][0], RULES["pattern_item"][1], 14, RULES["pattern_item"][3])
for _n, _item, _ty in (("pattern_items", "pattern_item()", Pt), ("array_items", "expr(0, 1)", Ex)):
    rule(_n, "", "Seq<%s>" % _ty, 30, """
if at BracketClose:
    ret Seq::empty()
else:
    x <- %s
    r <- %s_rest(Seq::empty().push(x))
    ret r
""" % (_item, _n))
    rule(_n + "_rest", "acc: Seq<%s>" % _ty, "Seq<%s>" % _ty, 1, """
if at BracketClose:
    ret acc
else:
    tok Comma
    x <- %s
    r <- %s_rest(acc.push(x))
    ret r
""" % (_item, _n))

# ---- expressions; in context 1 (array items) and 2 (arguments) `...` may stand, in 1 also nothing
rule("expr", "thr: int, ctx: int", Ex, 20, """
x <- head(ctx)
r <- tail(x, thr)
ret r
""")
rule("tail", "left: %s, thr: int" % Ex, Ex, 16, """
if binds(thr, at(s, @here)):
    x <= op(left)
    r <- tail(x, thr)
    ret r
else:
    ret left
""")
rule("op", "left: %s" % Ex, Ex, 14, """
if at Comma:
    skip
    x <- expr(0, 0)
    l <- sequence(Seq::empty().push(left).push(x))
    ret nd(Expression::Sequence(SequenceExpression { body: lst(l) }))
elif at OperatorConditional:
    skip
    a <- expr(0, 0)
    tok Colon
    b <- expr(0, 0)
    ret nd(Expression::Conditional(ConditionalExpression { test: left, consequent: a, alternate: b }))
elif at OperatorFatArrow:
    skip
    a <- arrow(arrow_params(left))
    ret nd(Expression::Arrow(a))
elif at Accessor:
    let name = @acc
    skip
    ret nd(Expression::Member(MemberExpression { object: left, property: nd(name) }))
elif at ParenOpen:
    skip
    l <- arguments()
    tok ParenClose
    ret nd(Expression::Call(CallExpression { callee: left, arguments: lst(l) }))
elif at BracketOpen:
    skip
    e <- expr(-1, 0)
    tok BracketClose
    ret nd(Expression::ComputedMember(ComputedMemberExpression { object: left, property: e }))
elif at TemplateOpen|TemplateClosed:
    q <- template()
    ret nd(Expression::TaggedTemplate(TaggedTemplateExpression { tag: left, quasi: nd(q) }))
elif at OperatorIncrement|OperatorDecrement:
    let op = operator(@kind)
    guard lvalue(*left.item)
    skip
    ret nd(Expression::Postfix(PostfixExpression { operator: op, operand: left }))
elif is_assign(@kind):
    let op = operator(@kind)
    guard lvalue(*left.item)
    skip
    e <- expr(0, 0)
    ret nd(Expression::Binary(BinaryExpression { operator: op, left, right: e }))
elif is_binary(@kind):
    let op = operator(@kind)
    let thr = if at(s, @here).kind is OperatorExponent { 140 } else { level(@kind) }
    skip
    e <- expr(thr, 0)
    ret nd(Expression::Binary(BinaryExpression { operator: op, left, right: e }))
else:
    fail
""")
rule("sequence", "acc: Seq<%s>" % Ex, "Seq<%s>" % Ex, 5, """
if at Comma:
    skip
    x <- expr(0, 0)
    r <- sequence(acc.push(x))
    ret r
else:
    ret acc
""")
rule("arguments", "", "Seq<%s>" % Ex, 30, """
if at ParenClose:
    ret Seq::empty()
else:
    x <- expr(0, 2)
    r <- arguments_rest(Seq::empty().push(x))
    ret r
""")
rule("arguments_rest", "acc: Seq<%s>" % Ex, "Seq<%s>" % Ex, 5, """
if at ParenClose:
    ret acc
else:
    tok Comma
    if at ParenClose:
        ret acc
    else:
        x <- expr(0, 2)
        r <- arguments_rest(acc.push(x))
        ret r
""")
rule("arrow", "params: Seq<%s>" % Ex, "ArrowExpression<'a>", 30, """
guard patterns_of(params, 0, Seq::empty()) is Some
let ps = lst(patterns_of(params, 0, Seq::empty())->0)
if at BraceOpen:
    b <- block()
    ret ArrowExpression { params: ps, body: ArrowBody::Block(b) }
else:
    e <- expr(0, 0)
    ret ArrowExpression { params: ps, body: ArrowBody::Expression(e) }
""")
LIT = {"LiteralTrue": "True", "LiteralFalse": "False", "LiteralNull": "Null", "LiteralUndefined": "Undefined"}
rule("head", "ctx: int", Ex, 18, """
if at Identifier:
    let n = @text
    skip
    ret nd(Expression::Identifier(n))
elif at ParenOpen:
    r <- paren()
    ret r
elif at BracketOpen:
    skip
    l <- array_items()
    tok BracketClose
    ret nd(Expression::Array(ArrayExpression { body: lst(l) }))
elif at BraceOpen:
    skip
    l <- properties()
    tok BraceClose
    ret nd(Expression::Object(ObjectExpression { body: lst(l) }))
elif at OperatorNew:
    skip
    r <- new()
    ret r
elif is_unary(@kind):
    let op = operator(@kind)
    skip
    e <- expr(150, 0)
    ret nd(Expression::Prefix(PrefixExpression { operator: op, operand: e }))
elif at OperatorDivision:
    mode in_regex
    let v = @text
    tok LiteralRegEx
    ret nd(Expression::Literal(Literal::RegEx(v)))
elif at Function:
    skip
    f <- function_optional()
    ret nd(Expression::Function(f))
elif at Class:
    skip
    f <- class_optional()
    ret nd(Expression::Class(f))
elif at This:
    skip
    ret nd(Expression::This(ThisExpression))
""" + "".join("""elif at %s:
    skip
    ret nd(Expression::Literal(Literal::%s))
""" % k for k in LIT.items()) + "".join("""elif at Literal%s:
    let n = @text
    skip
    ret nd(Expression::Literal(Literal::%s(n)))
""" % (k, k) for k in ("String", "Number", "Binary")) + """
elif at TemplateOpen|TemplateClosed:
    q <- template()
    ret nd(Expression::Template(q))
elif at OperatorSpread && ctx != 0:
    skip
    e <- expr(0, 0)
    ret nd(Expression::Spread(SpreadExpression { argument: e }))
elif at Comma|BracketClose && ctx == 1:
    ret nd(Expression::Void)
else:
    fail
""")
rule("paren", "", Ex, 12, """
step
if at ParenClose:
    skip
    tok OperatorFatArrow
    a <- arrow(Seq::empty())
    ret nd(Expression::Arrow(a))
else:
    e <- expr(-1, 0)
    tok ParenClose
    ret e
""")
rule("new", "", Ex, 30, """
if at Accessor:
    let n = @acc
    guard n == "target"
    skip
    ret nd(Expression::MetaProperty(MetaPropertyExpression { meta: nd("new"), property: nd(n) }))
else:
    c <- expr(175, 0)
    o <- new_arguments(c)
    ret nd(Expression::Prefix(PrefixExpression { operator: OperatorKind::New, operand: o }))
""")
rule("new_arguments", "callee: %s" % Ex, Ex, 5, """
if at ParenOpen:
    skip
    l <- arguments()
    tok ParenClose
    ret nd(Expression::Call(CallExpression { callee, arguments: lst(l) }))
elif callee.item is Call:
    ret nd(Expression::Call(CallExpression { callee, arguments: lst(Seq::empty()) }))
else:
    ret callee
""")
rule("properties", "", "Seq<%s>" % Pr, 30, """
if at BraceClose:
    ret Seq::empty()
else:
    x <- property()
    r <- properties_rest(Seq::empty().push(x))
    ret r
""")
rule("properties_rest", "acc: Seq<%s>" % Pr, "Seq<%s>" % Pr, 5, """
if at BraceClose:
    ret acc
else:
    tok Comma
    if at BraceClose:
        ret acc
    else:
        x <- property()
        r <- properties_rest(acc.push(x))
        ret r
""")
rule("property", "", Pr, 29, """
if word:
    let n = @text
    skip
    if at Colon|ParenOpen:
        r <- property_value(nd(PropertyKey::Literal(n)))
        ret r
    else:
        ret nd(Property::Shorthand(n))
elif at OperatorSpread:
    skip
    e <- expr(0, 0)
    ret nd(Property::Spread { argument: e })
elif at LiteralString|LiteralNumber:
    let n = @text
    skip
    r <- property_value(nd(PropertyKey::Literal(n)))
    ret r
elif at LiteralBinary:
    let n = @text
    skip
    r <- property_value(nd(PropertyKey::Binary(n)))
    ret r
elif at BracketOpen:
    skip
    e <- expr(-1, 0)
    tok BracketClose
    r <- property_value(nd(PropertyKey::Computed(e)))
    ret r
else:
    fail
""")
rule("property_value", "key: Node<'a, PropertyKey<'a>>", Pr, 13, """
if at Colon:
    skip
    e <- expr(0, 0)
    ret nd(Property::Literal { key, value: e })
elif at ParenOpen:
    f <- function_empty()
    ret nd(Property::Method { key, value: nd(f) })
else:
    fail
""")
rule("template", "", "TemplateLiteral<'a>", 12, """
if at TemplateClosed:
    let q = nd(@quasi)
    skip
    ret TemplateLiteral { expressions: lst(Seq::empty()), quasis: lst(Seq::empty().push(q)) }
else:
    r <- template_parts(Seq::empty(), Seq::empty())
    ret r
""")
rule("template_parts", "qs: Seq<Node<'a, &'a str>>, es: Seq<%s>" % Ex, "TemplateLiteral<'a>", 11, """
let q = nd(@quasi)
if at TemplateClosed:
    skip
    ret TemplateLiteral { expressions: lst(es), quasis: lst(qs.push(q)) }
else:
    tok TemplateOpen
    e <- expr(-1, 0)
    guard at BraceClose
    mode in_quasi
    r <- template_parts(qs.push(q), es.push(e))
    ret r
""")
