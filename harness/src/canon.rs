//! The canonical form of ratel's syntax tree: the same notation as
//! `tree::canon`, derived independently from the parser's output.
use ratel::ast::expression::*;
use ratel::ast::statement::*;
use ratel::ast::*;

pub struct Opts {
    /// Leave out empty statements in statement lists
    pub drop_empty: bool,
    /// Read every arrow function as the function it is to become
    pub lower: bool,
}

pub fn canon<'a>(body: StatementList<'a>, opts: &Opts) -> String {
    let mut o = String::new();
    for s in body {
        if opts.drop_empty && matches!(s.item, Statement::Empty) {
            continue;
        }
        stmt(s, &mut o, opts);
        o.push('\n');
    }
    o
}

fn word(o: &mut String, w: &str) {
    o.push_str(&format!("{:?}", w));
}

fn stmts<'a>(list: StatementList<'a>, o: &mut String, x: &Opts) {
    o.push('[');
    for s in list {
        if x.drop_empty && matches!(s.item, Statement::Empty) {
            continue;
        }
        o.push(' ');
        stmt(s, o, x);
    }
    o.push(']');
}

fn exprs<'a>(list: ExpressionList<'a>, o: &mut String, x: &Opts) {
    o.push('[');
    for e in list {
        o.push(' ');
        expr(e, o, x);
    }
    o.push(']');
}

fn pats<'a>(list: PatternList<'a>, o: &mut String, x: &Opts) {
    o.push('[');
    for p in list {
        o.push(' ');
        pat(p, o, x);
    }
    o.push(']');
}

fn props<'a>(list: NodeList<'a, Property<'a>>, o: &mut String, x: &Opts) {
    o.push('[');
    for p in list {
        o.push(' ');
        prop(p, o, x);
    }
    o.push(']');
}

fn opt_expr<'a>(e: &Option<ExpressionNode<'a>>, o: &mut String, x: &Opts) {
    o.push(' ');
    match e {
        Some(e) => expr(e, o, x),
        None => o.push('-'),
    }
}

fn key<'a>(k: &PropertyKey<'a>, o: &mut String, x: &Opts) {
    match k {
        PropertyKey::Literal(w) => word(o, w),
        PropertyKey::Binary(w) => {
            o.push_str("bin");
            word(o, w)
        }
        PropertyKey::Computed(e) => {
            o.push_str("(computed ");
            expr(e, o, x);
            o.push(')');
        }
    }
}

fn fun<'a, N: Name<'a>>(f: &Function<'a, N>, o: &mut String, x: &Opts) {
    o.push_str(if f.generator { " *" } else { " " });
    pats(f.params, o, x);
    stmts(f.body.body, o, x);
}

fn cls<'a, N: Name<'a>>(c: &Class<'a, N>, o: &mut String, x: &Opts) {
    opt_expr(&c.extends, o, x);
    o.push('[');
    for m in c.body.body {
        o.push_str(" (");
        match m.item {
            ClassMember::Error => o.push_str("error"),
            ClassMember::Method { is_static, key: ref k, kind, ref value } => {
                let kind = match kind {
                    MethodKind::Constructor => "constructor",
                    MethodKind::Method => "method",
                    MethodKind::Get => "get",
                    MethodKind::Set => "set",
                };
                o.push_str(&format!("{} {} ", if is_static { "static" } else { "member" }, kind));
                key(k, o, x);
                fun(value, o, x);
            }
            ClassMember::Literal { is_static, key: ref k, ref value } => {
                o.push_str(&format!("{} field ", if is_static { "static" } else { "member" }));
                key(k, o, x);
                o.push(' ');
                expr(value, o, x);
            }
        }
        o.push(')');
    }
    o.push(']');
}

fn prop<'a>(p: &Property<'a>, o: &mut String, x: &Opts) {
    o.push('(');
    match p {
        Property::Shorthand(w) => {
            o.push_str("short ");
            word(o, w)
        }
        Property::Literal { key: k, value } => {
            o.push_str("kv ");
            key(k, o, x);
            o.push(' ');
            expr(value, o, x)
        }
        Property::Method { key: k, value } => {
            o.push_str("method ");
            key(k, o, x);
            fun(value, o, x)
        }
        Property::Spread { argument } => {
            o.push_str("spread ");
            expr(argument, o, x)
        }
    }
    o.push(')');
}

fn pat<'a>(p: &Pattern<'a>, o: &mut String, x: &Opts) {
    match p {
        Pattern::Void => o.push_str("<void>"),
        Pattern::Identifier(w) => o.push_str(w),
        Pattern::ObjectPattern { properties } => {
            o.push_str("(objpat ");
            props(*properties, o, x);
            o.push(')');
        }
        Pattern::ArrayPattern { elements } => {
            o.push_str("(arrpat ");
            pats(*elements, o, x);
            o.push(')');
        }
        Pattern::RestElement { argument } => o.push_str(&format!("(rest {})", argument.item)),
        Pattern::AssignmentPattern { left, right } => {
            o.push_str("(default ");
            pat(left, o, x);
            o.push(' ');
            expr(right, o, x);
            o.push(')');
        }
    }
}

fn tpl<'a>(t: &TemplateLiteral<'a>, o: &mut String, x: &Opts) {
    o.push('[');
    for q in t.quasis {
        o.push(' ');
        word(o, q.item);
    }
    o.push(']');
    exprs(t.expressions, o, x);
}

/// The operator names, by the harness' own table
pub fn op_name(op: OperatorKind) -> &'static str {
    use ratel::ast::OperatorKind::*;
    match op {
        FatArrow => "=>",
        New => "new",
        Increment => "++",
        Decrement => "--",
        LogicalNot => "!",
        BitwiseNot => "~",
        Typeof => "typeof",
        Void => "void",
        Delete => "delete",
        Multiplication => "*",
        Division => "/",
        Remainder => "%",
        Exponent => "**",
        Addition => "+",
        Subtraction => "-",
        BitShiftLeft => "<<",
        BitShiftRight => ">>",
        UBitShiftRight => ">>>",
        Lesser => "<",
        LesserEquals => "<=",
        Greater => ">",
        GreaterEquals => ">=",
        Instanceof => "instanceof",
        In => "in",
        StrictEquality => "===",
        StrictInequality => "!==",
        Equality => "==",
        Inequality => "!=",
        BitwiseAnd => "&",
        BitwiseXor => "^",
        BitwiseOr => "|",
        LogicalAnd => "&&",
        LogicalOr => "||",
        Conditional => "?",
        Assign => "=",
        AddAssign => "+=",
        SubtractAssign => "-=",
        ExponentAssign => "**=",
        MultiplyAssign => "*=",
        DivideAssign => "/=",
        RemainderAssign => "%=",
        BSLAssign => "<<=",
        BSRAssign => ">>=",
        UBSRAssign => ">>>=",
        BitAndAssign => "&=",
        BitXorAssign => "^=",
        BitOrAssign => "|=",
        Spread => "...",
    }
}

pub fn expr<'a>(e: &Expression<'a>, o: &mut String, x: &Opts) {
    match e {
        Expression::Void => return o.push_str("<void>"),
        Expression::This(_) => return o.push_str("<this>"),
        Expression::Identifier(w) => return o.push_str(w),
        Expression::Literal(l) => {
            return match l {
                Literal::Undefined => o.push_str("<undefined>"),
                Literal::Null => o.push_str("<null>"),
                Literal::True => o.push_str("<true>"),
                Literal::False => o.push_str("<false>"),
                Literal::Number(w) | Literal::Binary(w) | Literal::String(w) => o.push_str(&format!("<{}>", w)),
                Literal::RegEx(w) => o.push_str(&format!("<re {}>", w)),
            }
        }
        _ => {}
    }
    o.push('(');
    match e {
        Expression::Void | Expression::This(_) | Expression::Identifier(_) | Expression::Literal(_) => {}
        Expression::Template(t) => {
            o.push_str("tpl ");
            tpl(t, o, x)
        }
        Expression::TaggedTemplate(t) => {
            o.push_str("tag ");
            expr(&t.tag, o, x);
            tpl(&t.quasi, o, x)
        }
        Expression::Array(a) => {
            o.push_str("arr ");
            exprs(a.body, o, x)
        }
        Expression::Object(a) => {
            o.push_str("obj ");
            props(a.body, o, x)
        }
        Expression::Function(f) => {
            o.push_str(&format!("fun {}", f.name.0.map_or("-", |n| n.item)));
            fun(f, o, x)
        }
        Expression::Class(c) => {
            o.push_str(&format!("cls {}", c.name.0.map_or("-", |n| n.item)));
            cls(c, o, x)
        }
        Expression::Arrow(a) if x.lower => {
            o.push_str("fun - ");
            pats(a.params, o, x);
            match a.body {
                ArrowBody::Expression(ref e) => {
                    o.push_str("[ (return ");
                    expr(e, o, x);
                    o.push_str(")]")
                }
                ArrowBody::Block(ref b) => stmts(b.body, o, x),
            }
        }
        Expression::Arrow(a) => {
            o.push_str("arrow ");
            pats(a.params, o, x);
            match a.body {
                ArrowBody::Expression(ref e) => {
                    o.push(' ');
                    expr(e, o, x)
                }
                ArrowBody::Block(ref b) => stmts(b.body, o, x),
            }
        }
        Expression::Sequence(s) => {
            o.push_str("seq ");
            exprs(s.body, o, x)
        }
        Expression::Binary(b) => {
            o.push_str(&format!("{} ", op_name(b.operator)));
            expr(&b.left, o, x);
            o.push(' ');
            expr(&b.right, o, x)
        }
        Expression::Conditional(c) => {
            o.push_str("? ");
            expr(&c.test, o, x);
            o.push(' ');
            expr(&c.consequent, o, x);
            o.push(' ');
            expr(&c.alternate, o, x)
        }
        Expression::Prefix(p) if p.operator == OperatorKind::New => {
            o.push_str("new ");
            match p.operand.item {
                Expression::Call(ref c) => {
                    expr(&c.callee, o, x);
                    exprs(c.arguments, o, x)
                }
                _ => expr(&p.operand, o, x),
            }
        }
        Expression::Prefix(p) => {
            o.push_str(&format!("pre{} ", op_name(p.operator)));
            expr(&p.operand, o, x)
        }
        Expression::Postfix(p) => {
            o.push_str(&format!("post{} ", op_name(p.operator)));
            expr(&p.operand, o, x)
        }
        Expression::Call(c) => {
            o.push_str("call ");
            expr(&c.callee, o, x);
            exprs(c.arguments, o, x)
        }
        Expression::Member(m) => {
            o.push_str(". ");
            expr(&m.object, o, x);
            o.push(' ');
            o.push_str(m.property.item)
        }
        Expression::ComputedMember(m) => {
            o.push_str("idx ");
            expr(&m.object, o, x);
            o.push(' ');
            expr(&m.property, o, x)
        }
        Expression::MetaProperty(m) => o.push_str(&format!("meta {} {}", m.meta.item, m.property.item)),
        Expression::Spread(s) => {
            o.push_str("... ");
            expr(&s.argument, o, x)
        }
    }
    o.push(')');
}

fn decl<'a>(d: &DeclarationStatement<'a>, o: &mut String, x: &Opts) {
    o.push_str(match d.kind {
        DeclarationKind::Var => "var ",
        DeclarationKind::Let => "let ",
        DeclarationKind::Const => "const ",
    });
    o.push('[');
    for d in d.declarators {
        o.push(' ');
        pat(&d.id, o, x);
        opt_expr(&d.init, o, x);
    }
    o.push(']');
}

fn init<'a>(i: &ForInit<'a>, o: &mut String, x: &Opts) {
    match i {
        ForInit::Declaration(d) => decl(d, o, x),
        ForInit::Expression(e) => expr(e, o, x),
    }
}

pub fn stmt<'a>(s: &Statement<'a>, o: &mut String, x: &Opts) {
    o.push('(');
    match s {
        Statement::Empty => o.push_str("empty"),
        Statement::Debugger => o.push_str("debugger"),
        Statement::Expression(e) => {
            o.push_str("expr ");
            expr(e, o, x)
        }
        Statement::Declaration(d) => decl(d, o, x),
        Statement::Return(r) => {
            o.push_str("return");
            opt_expr(&r.value, o, x)
        }
        Statement::Break(b) => o.push_str(&format!("break {}", b.label.map_or("-", |l| l.item))),
        Statement::Continue(b) => o.push_str(&format!("continue {}", b.label.map_or("-", |l| l.item))),
        Statement::Throw(t) => {
            o.push_str("throw ");
            expr(&t.value, o, x)
        }
        Statement::If(i) => {
            o.push_str("if ");
            expr(&i.test, o, x);
            o.push(' ');
            stmt(&i.consequent, o, x);
            o.push(' ');
            match i.alternate {
                Some(ref s) => stmt(s, o, x),
                None => o.push('-'),
            }
        }
        Statement::While(w) => {
            o.push_str("while ");
            expr(&w.test, o, x);
            o.push(' ');
            stmt(&w.body, o, x)
        }
        Statement::Do(w) => {
            o.push_str("do ");
            stmt(&w.body, o, x);
            o.push(' ');
            expr(&w.test, o, x)
        }
        Statement::For(f) => {
            o.push_str("for ");
            match f.init {
                Some(ref i) => init(i, o, x),
                None => o.push('-'),
            }
            opt_expr(&f.test, o, x);
            opt_expr(&f.update, o, x);
            o.push(' ');
            stmt(&f.body, o, x)
        }
        Statement::ForIn(f) => {
            o.push_str("forin ");
            init(&f.left, o, x);
            o.push(' ');
            expr(&f.right, o, x);
            o.push(' ');
            stmt(&f.body, o, x)
        }
        Statement::ForOf(f) => {
            o.push_str("forof ");
            init(&f.left, o, x);
            o.push(' ');
            expr(&f.right, o, x);
            o.push(' ');
            stmt(&f.body, o, x)
        }
        Statement::Try(t) => {
            o.push_str("try");
            stmts(t.block.body, o, x);
            o.push(' ');
            match t.handler {
                Some(ref h) => {
                    o.push_str("(catch ");
                    pat(&h.param, o, x);
                    stmts(h.body.body, o, x);
                    o.push(')')
                }
                None => o.push('-'),
            }
            o.push(' ');
            match t.finalizer {
                Some(ref b) => stmts(b.body, o, x),
                None => o.push('-'),
            }
        }
        Statement::Block(b) => {
            o.push_str("block");
            stmts(b.body, o, x)
        }
        Statement::Labeled(l) => {
            o.push_str(&format!("label {} ", l.label));
            stmt(&l.body, o, x)
        }
        Statement::Function(f) => {
            o.push_str(&format!("function {}", f.name.0.item));
            fun(f, o, x)
        }
        Statement::Class(c) => {
            o.push_str(&format!("class {}", c.name.0.item));
            cls(c, o, x)
        }
        Statement::Switch(s) => {
            o.push_str("switch ");
            expr(&s.discriminant, o, x);
            o.push('[');
            for c in s.cases.body {
                o.push_str(" (case");
                opt_expr(&c.test, o, x);
                stmts(c.consequent, o, x);
                o.push(')')
            }
            o.push(']')
        }
        Statement::Import(i) => {
            o.push_str("import [");
            for s in i.specifiers {
                o.push(' ');
                match s.item {
                    ForImportSpecifier::ImportDefaultSpecifier(ref s) => o.push_str(&format!("(default {})", s.local.item)),
                    ForImportSpecifier::ImportNamespaceSpecifier(ref s) => o.push_str(&format!("(ns {})", s.local.item)),
                    ForImportSpecifier::ImportSpecifier(ref s) => {
                        o.push_str(&format!("(name {} {})", s.imported.item, s.local.item))
                    }
                }
            }
            o.push(']');
            word(o, i.source)
        }
    }
    o.push(')');
}
