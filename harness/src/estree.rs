//! The ESTree object every program has to be exported as, derived from the
//! syntax tree alone.
use ratel::ast::expression::*;
use ratel::ast::statement::*;
use ratel::ast::*;
use serde_json::{json, Map, Value};
use crate::canon::op_name;

type Fields = Map<String, Value>;

fn with(ty: &str, fields: Value) -> Fields {
    let mut m = match fields {
        Value::Object(m) => m,
        _ => Map::new(),
    };
    m.insert("type".into(), ty.into());
    m
}

fn placed<T>(mut m: Fields, n: &Loc<T>) -> Value {
    m.insert("start".into(), n.start.into());
    m.insert("end".into(), n.end.into());
    Value::Object(m)
}

fn list<'a, T>(l: NodeList<'a, T>, f: impl Fn(&Node<'a, T>) -> Value) -> Value {
    Value::Array(l.iter().map(|n| f(n)).collect())
}

fn opt<T>(o: &Option<T>, f: impl Fn(&T) -> Value) -> Value {
    o.as_ref().map(f).unwrap_or(Value::Null)
}

fn ident(n: &IdentifierNode) -> Value {
    placed(with("Identifier", json!({ "name": n.item })), n)
}

fn exp(n: &ExpressionNode) -> Value {
    placed(expr(&n.item), n)
}

fn stm(n: &StatementNode) -> Value {
    placed(stmt(&n.item), n)
}

fn exps(l: ExpressionList) -> Value {
    list(l, exp)
}

fn pats(l: PatternList) -> Value {
    list(l, pat)
}

fn block<'a>(n: &BlockNode<'a, Statement<'a>>) -> Value {
    placed(block_fields(&n.item), n)
}

fn block_fields<'a>(b: &Block<'a, Statement<'a>>) -> Fields {
    with("BlockStatement", json!({ "body": list(b.body, stm) }))
}

/// the value of digits: exact when it fits, else a float
fn digits(s: &str, radix: u32) -> Value {
    match i64::from_str_radix(s, radix) {
        Ok(n) => n.into(),
        Err(_) => s.chars().fold(0.0, |v, c| v * f64::from(radix) + f64::from(c.to_digit(radix).unwrap_or(0))).into(),
    }
}

fn number(s: &str) -> Value {
    match s.get(..2) {
        Some("0x") | Some("0X") if s.len() > 2 => digits(&s[2..], 16),
        Some("0o") | Some("0O") if s.len() > 2 => digits(&s[2..], 8),
        _ if s.contains(['.', 'e', 'E']) || s.len() > 18 => s.parse::<f64>().map(|x| x.into()).unwrap_or(Value::Null),
        _ => digits(s, 10),
    }
}

fn literal(l: &Literal) -> Fields {
    with("Literal", match *l {
        Literal::Undefined => json!({ "raw": "undefined" }),
        Literal::Null => json!({ "raw": "null", "value": null }),
        Literal::True => json!({ "raw": "true", "value": true }),
        Literal::False => json!({ "raw": "false", "value": false }),
        Literal::Number(s) => json!({ "raw": s, "value": number(s) }),
        Literal::Binary(s) => json!({ "raw": s, "value": digits(&s[2..], 2) }),
        Literal::String(s) => json!({ "raw": s, "value": &s[1..s.len() - 1] }),
        Literal::RegEx(s) => {
            let (pattern, flags) = s[1..].rsplit_once('/').unwrap();
            json!({ "raw": s, "regex": { "pattern": pattern, "flags": flags } })
        }
    })
}

fn template(t: &TemplateLiteral) -> Fields {
    let n = t.quasis.iter().count();
    let quasis: Vec<Value> = t.quasis.iter().enumerate().map(|(i, q)| {
        let mut m = with("TemplateElement", json!({ "tail": i + 1 == n, "value": { "raw": q.item, "cooked": q.item } }));
        m.insert("start".into(), q.start.wrapping_add(1).into());
        m.insert("end".into(), q.end.wrapping_sub(1).into());
        Value::Object(m)
    }).collect();
    with("TemplateLiteral", json!({ "quasis": quasis, "expressions": exps(t.expressions) }))
}

fn func<'a, N: Name<'a>>(ty: &str, id: Value, f: &Function<'a, N>) -> Fields {
    with(ty, json!({ "generator": f.generator, "id": id, "params": pats(f.params), "body": block(&f.body) }))
}

fn class<'a, N: Name<'a>>(ty: &str, id: Value, c: &Class<'a, N>) -> Fields {
    let body = placed(with("ClassBody", json!({ "body": list(c.body.item.body, member) })), &c.body);
    with(ty, json!({ "id": id, "superClass": opt(&c.extends, exp), "body": body }))
}

fn method(n: &Node<Function<EmptyName>>) -> Value {
    placed(func("FunctionExpression", Value::Null, &n.item), n)
}

fn key(n: &Node<PropertyKey>) -> (Value, bool) {
    match n.item {
        PropertyKey::Computed(ref e) => (exp(e), true),
        PropertyKey::Literal(s) | PropertyKey::Binary(s) => (placed(with("Identifier", json!({ "name": s })), n), false),
    }
}

fn member(n: &Node<ClassMember>) -> Value {
    placed(match n.item {
        ClassMember::Error => with("Error", Value::Null),
        ClassMember::Method { is_static, key: ref k, ref kind, ref value } => {
            let (k, computed) = key(k);
            let kind = match kind {
                MethodKind::Constructor => "constructor",
                MethodKind::Method => "method",
                MethodKind::Get => "get",
                MethodKind::Set => "set",
            };
            with("MethodDefinition", json!({ "static": is_static, "computed": computed, "key": k, "kind": kind, "value": method(value) }))
        }
        ClassMember::Literal { is_static, key: ref k, ref value } => {
            let (k, computed) = key(k);
            with("PropertyDefinition", json!({ "static": is_static, "computed": computed, "key": k, "value": exp(value) }))
        }
    }, n)
}

fn prop(n: &Node<Property>) -> Value {
    placed(match n.item {
        Property::Shorthand(s) => with("Identifier", json!({ "name": s })),
        Property::Literal { key: ref k, ref value } => {
            let (k, computed) = key(k);
            with("Property", json!({ "key": k, "computed": computed, "method": false, "shorthand": false, "kind": "init", "value": exp(value) }))
        }
        Property::Method { key: ref k, ref value } => {
            let (k, computed) = key(k);
            with("Property", json!({ "key": k, "computed": computed, "method": true, "shorthand": false, "kind": "init", "value": method(value) }))
        }
        Property::Spread { ref argument } => with("SpreadProperty", json!({ "argument": exp(argument) })),
    }, n)
}

fn pat(n: &Node<Pattern>) -> Value {
    placed(match n.item {
        Pattern::Void => with("Void", Value::Null),
        Pattern::Identifier(s) => with("Identifier", json!({ "name": s })),
        Pattern::ObjectPattern { properties } => with("ObjectPattern", json!({ "keys": list(properties, prop) })),
        Pattern::ArrayPattern { elements } => {
            let mut v: Vec<Value> = elements.iter().map(|e| if let Pattern::Void = e.item { Value::Null } else { pat(e) }).collect();
            if v.last() == Some(&Value::Null) {
                v.pop();
            }
            with("ArrayPattern", json!({ "elements": v }))
        }
        Pattern::RestElement { ref argument } => with("RestElement", json!({ "argument": ident(argument) })),
        Pattern::AssignmentPattern { ref left, ref right } => with("AssignmentPattern", json!({ "left": pat(left), "right": exp(right) })),
    }, n)
}

/// the type of an expression made by an operator that has an operand on its
/// left, if not `prefix`, and one on its right, if not `postfix`
fn operator_type(op: OperatorKind, prefix: bool) -> &'static str {
    match op_name(op) {
        "++" | "--" => "UpdateExpression",
        "&&" | "||" => "LogicalExpression",
        "==" | "===" | "!=" | "!==" | "<=" | ">=" => "BinaryExpression",
        o if o.ends_with('=') => "AssignmentExpression",
        _ if prefix => "UnaryExpression",
        _ => "BinaryExpression",
    }
}

fn expr(e: &Expression) -> Fields {
    match *e {
        Expression::Void => with("Void", Value::Null),
        Expression::This(_) => with("ThisExpression", Value::Null),
        Expression::Identifier(s) => with("Identifier", json!({ "name": s })),
        Expression::Literal(ref l) => literal(l),
        Expression::Sequence(ref x) => with("SequenceExpression", json!({ "expressions": exps(x.body) })),
        Expression::Array(ref x) => {
            let mut v: Vec<Value> = x.body.iter().map(|e| if let Expression::Void = e.item { Value::Null } else { exp(e) }).collect();
            while v.last() == Some(&Value::Null) {
                v.pop();
            }
            with("ArrayExpression", json!({ "elements": v }))
        }
        Expression::Member(ref x) => with("MemberExpression", json!({ "object": exp(&x.object), "property": ident(&x.property), "computed": false })),
        Expression::ComputedMember(ref x) => with("MemberExpression", json!({ "object": exp(&x.object), "property": exp(&x.property), "computed": true })),
        Expression::MetaProperty(ref x) => with("MetaProperty", json!({ "meta": ident(&x.meta), "property": ident(&x.property) })),
        Expression::Call(ref x) => with("CallExpression", json!({ "callee": exp(&x.callee), "arguments": exps(x.arguments) })),
        Expression::Binary(ref x) => with(operator_type(x.operator, false), json!({ "operator": op_name(x.operator), "left": exp(&x.left), "right": exp(&x.right) })),
        Expression::Prefix(ref x) if op_name(x.operator) == "new" => with("NewExpression", match x.operand.item {
            Expression::Call(ref c) => json!({ "callee": exp(&c.callee), "arguments": exps(c.arguments) }),
            _ => json!({ "callee": exp(&x.operand), "arguments": [] }),
        }),
        Expression::Prefix(ref x) => with(operator_type(x.operator, true), json!({ "operator": op_name(x.operator), "argument": exp(&x.operand), "prefix": true })),
        Expression::Postfix(ref x) => with(operator_type(x.operator, false), json!({ "operator": op_name(x.operator), "argument": exp(&x.operand), "prefix": false })),
        Expression::Conditional(ref x) => with("ConditionalExpression", json!({ "test": exp(&x.test), "consequent": exp(&x.consequent), "alternate": exp(&x.alternate) })),
        Expression::Template(ref t) => template(t),
        Expression::TaggedTemplate(ref x) => with("TaggedTemplateExpression", json!({ "tag": exp(&x.tag), "quasi": placed(template(&x.quasi.item), &x.quasi) })),
        Expression::Spread(ref x) => with("SpreadElement", json!({ "argument": exp(&x.argument) })),
        Expression::Arrow(ref x) => {
            let body = match x.body {
                ArrowBody::Expression(ref e) => exp(e),
                ArrowBody::Block(ref b) => block(b),
            };
            with("ArrowFunctionExpression", json!({ "params": pats(x.params), "body": body }))
        }
        Expression::Object(ref x) => with("ObjectExpression", json!({ "properties": list(x.body, prop) })),
        Expression::Function(ref f) => func("FunctionExpression", opt(&f.name.0, ident), f),
        Expression::Class(ref c) => class("ClassExpression", opt(&c.name.0, ident), c),
    }
}

fn declaration(d: &DeclarationStatement) -> Fields {
    let kind = match d.kind {
        DeclarationKind::Var => "var",
        DeclarationKind::Let => "let",
        DeclarationKind::Const => "const",
    };
    let decls = list(d.declarators, |n| placed(with("VariableDeclarator", json!({ "id": pat(&n.item.id), "init": opt(&n.item.init, exp) })), n));
    with("VariableDeclaration", json!({ "kind": kind, "declarations": decls }))
}

fn init(n: &Node<ForInit>) -> Value {
    placed(match n.item {
        ForInit::Declaration(ref d) => declaration(d),
        ForInit::Expression(ref e) => expr(&e.item),
    }, n)
}

fn import(n: &Node<ForImportSpecifier>) -> Value {
    placed(match n.item {
        ForImportSpecifier::ImportDefaultSpecifier(ref s) => with("ImportDefaultSpecifier", json!({ "local": ident(&s.local) })),
        ForImportSpecifier::ImportNamespaceSpecifier(ref s) => with("ImportNamespaceSpecifier", json!({ "local": ident(&s.local) })),
        ForImportSpecifier::ImportSpecifier(ref s) => with("ImportSpecifier", json!({ "imported": ident(&s.imported), "local": ident(&s.local) })),
    }, n)
}

fn stmt(s: &Statement) -> Fields {
    match *s {
        Statement::Empty => with("EmptyStatement", Value::Null),
        Statement::Debugger => with("DebuggerStatement", Value::Null),
        Statement::Expression(ref e) => with("ExpressionStatement", json!({ "expression": exp(e) })),
        Statement::Declaration(ref d) => declaration(d),
        Statement::Return(ref x) => with("ReturnStatement", json!({ "argument": opt(&x.value, exp) })),
        Statement::Break(ref x) => with("BreakStatement", json!({ "label": opt(&x.label, ident) })),
        Statement::Continue(ref x) => with("ContinueStatement", json!({ "label": opt(&x.label, ident) })),
        Statement::Throw(ref x) => with("ThrowStatement", json!({ "argument": exp(&x.value) })),
        Statement::If(ref x) => with("IfStatement", json!({ "test": exp(&x.test), "consequent": stm(&x.consequent), "alternate": opt(&x.alternate, stm) })),
        Statement::While(ref x) => with("WhileStatement", json!({ "test": exp(&x.test), "body": stm(&x.body) })),
        Statement::Do(ref x) => with("DoWhileStatement", json!({ "body": stm(&x.body), "test": exp(&x.test) })),
        Statement::For(ref x) => with("ForStatement", json!({ "init": opt(&x.init, init), "test": opt(&x.test, exp), "update": opt(&x.update, exp), "body": stm(&x.body) })),
        Statement::ForIn(ref x) => with("ForInStatement", json!({ "left": init(&x.left), "right": exp(&x.right), "body": stm(&x.body) })),
        Statement::ForOf(ref x) => with("ForOfStatement", json!({ "left": init(&x.left), "right": exp(&x.right), "body": stm(&x.body) })),
        Statement::Try(ref x) => {
            let catch = |n: &Node<CatchClause>| placed(with("CatchClause", json!({ "param": pat(&n.item.param), "body": block(&n.item.body) })), n);
            with("TryStatement", json!({ "block": block(&x.block), "handler": x.handler.as_ref().map(|n| catch(n)), "finalizer": opt(&x.finalizer, block) }))
        }
        Statement::Block(ref b) => block_fields(b),
        Statement::Labeled(ref x) => with("LabeledStatement", json!({ "label": x.label, "body": stm(&x.body) })),
        Statement::Function(ref f) => func("FunctionDeclaration", ident(&f.name.0), f),
        Statement::Class(ref c) => class("ClassDeclaration", ident(&c.name.0), c),
        Statement::Switch(ref x) => {
            let cases = list(x.cases.item.body, |n| placed(with("SwitchCase", json!({ "test": opt(&n.item.test, exp), "consequent": list(n.item.consequent, stm) })), n));
            with("SwitchStatement", json!({ "discriminant": exp(&x.discriminant), "cases": cases }))
        }
        Statement::Import(ref x) => with("ImportDeclaration", json!({ "specifiers": list(x.specifiers, import), "source": x.source })),
    }
}

fn program(body: StatementList) -> Value {
    let mut v = with("Program", json!({ "body": list(body, stm) }));
    v.insert("start".into(), body.iter().next().map_or(0, |s| s.start).into());
    v.insert("end".into(), body.iter().last().map_or(0, |s| s.end).into());
    Value::Object(v)
}

/// the same object without any positions
fn unplaced(v: Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.into_iter().filter(|(k, _)| k != "start" && k != "end").map(|(k, v)| (k, unplaced(v))).collect()),
        Value::Array(v) => Value::Array(v.into_iter().map(unplaced).collect()),
        v => v,
    }
}

/// where two values differ first
fn diff(path: &str, want: &Value, got: &Value) -> Option<String> {
    match (want, got) {
        (Value::Object(a), Value::Object(b)) => {
            for (k, x) in a {
                match b.get(k) {
                    Some(y) => {
                        if let Some(d) = diff(&format!("{}.{}", path, k), x, y) {
                            return Some(d);
                        }
                    }
                    None => return Some(format!("{}.{} is missing, expected {}", path, k, x)),
                }
            }
            b.keys().find(|k| !a.contains_key(*k)).map(|k| format!("{} has the field {}, which it should not have", path, k))
        }
        (Value::Array(a), Value::Array(b)) if a.len() == b.len() => a.iter().zip(b).enumerate().find_map(|(i, (x, y))| diff(&format!("{}[{}]", path, i), x, y)),
        _ if want == got => None,
        _ => Some(format!("{} is {}, expected {}", path, got, want)),
    }
}

/// the object is the one of the tree, positions included, and the one of the
/// program's text by the reference parser
pub fn check(text: &str, m: &ratel::Module) -> Result<bool, String> {
    let got = serde_json::to_value(m).map_err(|e| format!("not exported: {}", e))?;
    if let Some(d) = diff("program", &program(m.body()), &got) {
        return Err(d);
    }
    let arena = toolshed::Arena::new();
    match crate::refparse::RefParser::new(&arena, text).parse() {
        Some(l) => match diff("program", &unplaced(program(l)), &unplaced(got)) {
            Some(d) => Err(d),
            None => Ok(true),
        },
        None => Ok(true),
    }
}
