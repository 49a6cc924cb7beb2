//! What a visitor has to be told about a program, derived from the syntax
//! tree alone, and a visitor that records what it is told.
use ratel::ast::expression::*;
use ratel::ast::statement::*;
use ratel::ast::*;
use ratel_visitor::{ParentNode, ScopeKind, Visitor};

#[derive(Clone, PartialEq, Debug)]
pub enum Ev {
    Push(usize),
    Pop,
    Enter(ScopeKind),
    Leave,
    Use(String),
    Decl(String),
    /// callback, node, item
    Node(&'static str, usize, usize),
    List(Vec<usize>),
    This,
}

fn addr<T>(x: &T) -> usize {
    x as *const T as usize
}

fn loc_addr<'a, T>(n: &Node<'a, T>) -> usize {
    let l: &Loc<T> = &**n;
    addr(l)
}

fn list_addrs<'a>(l: StatementList<'a>) -> Vec<usize> {
    l.iter().map(|s| loc_addr(s)).collect()
}

pub struct Rec(pub Vec<Ev>);

macro_rules! rec {
    ($( $f:ident($t:ty, $n:ty); )*) => {$(
        fn $f(&mut self, item: &$t, node: &'a $n) {
            self.0.push(Ev::Node(stringify!($f), loc_addr(node), addr(item)));
        }
    )*}
}

impl<'a> Visitor<'a> for Rec {
    fn push_parent(&mut self, node: ParentNode<'a>) {
        self.0.push(Ev::Push(match node {
            ParentNode::Statement(s) => loc_addr(s),
            ParentNode::Expression(e) => loc_addr(e),
        }));
    }
    fn pop_parent(&mut self) {
        self.0.push(Ev::Pop);
    }
    fn on_statement_list(&mut self, body: StatementList<'a>) {
        self.0.push(Ev::List(list_addrs(body)));
    }
    fn on_enter_scope(&mut self, kind: ScopeKind) {
        self.0.push(Ev::Enter(kind));
    }
    fn on_leave_scope(&mut self) {
        self.0.push(Ev::Leave);
    }
    fn on_reference_use(&mut self, ident: &Identifier<'a>) {
        self.0.push(Ev::Use(ident.to_string()));
    }
    fn on_reference_declaration(&mut self, ident: &Identifier<'a>) {
        self.0.push(Ev::Decl(ident.to_string()));
    }
    fn on_this_expression(&mut self, node: &'a ExpressionNode<'a>) {
        self.0.push(Ev::Node("on_this_expression", loc_addr(node), 0));
    }
    fn on_meta_property(&mut self, item: &MetaPropertyExpression<'a>, node: &ExpressionNode<'a>) {
        self.0.push(Ev::Node("on_meta_property", loc_addr(node), addr(item)));
    }
    fn on_expression_statement(&mut self, item: &'a ExpressionNode<'a>, node: &'a StatementNode<'a>) {
        self.0.push(Ev::Node("on_expression_statement", loc_addr(node), addr(item)));
    }
    rec! {
        on_identifier_expression(Identifier<'a>, ExpressionNode<'a>);
        on_literal_expression(Literal<'a>, ExpressionNode<'a>);
        on_sequence_expression(SequenceExpression<'a>, ExpressionNode<'a>);
        on_array_expression(ArrayExpression<'a>, ExpressionNode<'a>);
        on_member_expression(MemberExpression<'a>, ExpressionNode<'a>);
        on_computed_member_expression(ComputedMemberExpression<'a>, ExpressionNode<'a>);
        on_call_expression(CallExpression<'a>, ExpressionNode<'a>);
        on_binary_expression(BinaryExpression<'a>, ExpressionNode<'a>);
        on_prefix_expression(PrefixExpression<'a>, ExpressionNode<'a>);
        on_postfix_expression(PostfixExpression<'a>, ExpressionNode<'a>);
        on_conditional_expression(ConditionalExpression<'a>, ExpressionNode<'a>);
        on_template_literal(TemplateLiteral<'a>, ExpressionNode<'a>);
        on_tagged_template_expression(TaggedTemplateExpression<'a>, ExpressionNode<'a>);
        on_spread_expression(SpreadExpression<'a>, ExpressionNode<'a>);
        on_arrow_expression(ArrowExpression<'a>, ExpressionNode<'a>);
        on_object_expression(ObjectExpression<'a>, ExpressionNode<'a>);
        on_function_expression(FunctionExpression<'a>, ExpressionNode<'a>);
        on_class_expression(ClassExpression<'a>, ExpressionNode<'a>);
        on_block_statement(BlockStatement<'a>, StatementNode<'a>);
        on_function_statement(FunctionStatement<'a>, StatementNode<'a>);
        on_class_statement(ClassStatement<'a>, StatementNode<'a>);
        on_import_declaration_statement(ImportDeclaration<'a>, StatementNode<'a>);
    }
    fn on_declaration_statement(&mut self, item: &DeclarationStatement, node: &'a StatementNode<'a>) {
        self.0.push(Ev::Node("on_declaration_statement", loc_addr(node), item as *const _ as *const u8 as usize));
    }
    fn on_return_statement(&mut self, item: &ReturnStatement, node: &'a StatementNode<'a>) {
        self.0.push(Ev::Node("on_return_statement", loc_addr(node), item as *const _ as *const u8 as usize));
    }
    fn on_break_statement(&mut self, item: &BreakStatement, node: &'a StatementNode<'a>) {
        self.0.push(Ev::Node("on_break_statement", loc_addr(node), item as *const _ as *const u8 as usize));
    }
    fn on_continue_statement(&mut self, item: &ContinueStatement, node: &'a StatementNode<'a>) {
        self.0.push(Ev::Node("on_continue_statement", loc_addr(node), item as *const _ as *const u8 as usize));
    }
    fn on_throw_statement(&mut self, item: &ThrowStatement, node: &'a StatementNode<'a>) {
        self.0.push(Ev::Node("on_throw_statement", loc_addr(node), item as *const _ as *const u8 as usize));
    }
    fn on_if_statement(&mut self, item: &IfStatement, node: &'a StatementNode<'a>) {
        self.0.push(Ev::Node("on_if_statement", loc_addr(node), item as *const _ as *const u8 as usize));
    }
    fn on_while_statement(&mut self, item: &WhileStatement, node: &'a StatementNode<'a>) {
        self.0.push(Ev::Node("on_while_statement", loc_addr(node), item as *const _ as *const u8 as usize));
    }
    fn on_do_statement(&mut self, item: &DoStatement, node: &'a StatementNode<'a>) {
        self.0.push(Ev::Node("on_do_statement", loc_addr(node), item as *const _ as *const u8 as usize));
    }
    fn on_for_statement(&mut self, item: &ForStatement, node: &'a StatementNode<'a>) {
        self.0.push(Ev::Node("on_for_statement", loc_addr(node), item as *const _ as *const u8 as usize));
    }
    fn on_for_in_statement(&mut self, item: &ForInStatement, node: &'a StatementNode<'a>) {
        self.0.push(Ev::Node("on_for_in_statement", loc_addr(node), item as *const _ as *const u8 as usize));
    }
    fn on_for_of_statement(&mut self, item: &ForOfStatement, node: &'a StatementNode<'a>) {
        self.0.push(Ev::Node("on_for_of_statement", loc_addr(node), item as *const _ as *const u8 as usize));
    }
    fn on_try_statement(&mut self, item: &TryStatement, node: &'a StatementNode<'a>) {
        self.0.push(Ev::Node("on_try_statement", loc_addr(node), item as *const _ as *const u8 as usize));
    }
    fn on_labeled_statement(&mut self, item: &LabeledStatement, node: &'a StatementNode<'a>) {
        self.0.push(Ev::Node("on_labeled_statement", loc_addr(node), item as *const _ as *const u8 as usize));
    }
    fn on_switch_statement(&mut self, item: &SwitchStatement, node: &'a StatementNode<'a>) {
        self.0.push(Ev::Node("on_switch_statement", loc_addr(node), item as *const _ as *const u8 as usize));
    }
}

/// The expected events
pub struct Oracle(pub Vec<Ev>);

impl Oracle {
    fn node<I>(&mut self, name: &'static str, at: usize, item: &I, children: bool) {
        self.0.push(Ev::Node(name, at, item as *const I as *const u8 as usize));
        if children {
            self.0.push(Ev::Push(at));
        }
    }
    fn done(&mut self) {
        self.0.push(Ev::Pop);
    }
    fn usage(&mut self, n: &str) {
        self.0.push(Ev::Use(n.to_string()));
    }
    fn decl(&mut self, n: &str) {
        self.0.push(Ev::Decl(n.to_string()));
    }

    pub fn list<'a>(&mut self, l: StatementList<'a>) {
        self.0.push(Ev::List(list_addrs(l)));
        for s in l {
            self.stmt(s);
        }
    }
    fn block<'a>(&mut self, l: StatementList<'a>) {
        self.0.push(Ev::Enter(ScopeKind::Block));
        self.list(l);
        self.0.push(Ev::Leave);
    }
    fn decls<'a>(&mut self, d: &DeclarationStatement<'a>) {
        for x in d.declarators {
            self.pat(&x.id);
            if let Some(i) = &x.init {
                self.expr(i);
            }
        }
    }
    fn init<'a>(&mut self, i: &ForInit<'a>) {
        match i {
            ForInit::Declaration(d) => self.decls(d),
            ForInit::Expression(e) => self.expr(e),
        }
    }
    fn pat<'a>(&mut self, p: &Pattern<'a>) {
        match p {
            Pattern::Void => {}
            Pattern::Identifier(n) => self.decl(n),
            Pattern::ObjectPattern { properties } => {
                for p in *properties {
                    self.bound_prop(p);
                }
            }
            Pattern::ArrayPattern { elements } => {
                for p in *elements {
                    self.pat(p);
                }
            }
            Pattern::RestElement { argument } => self.decl(argument.item),
            Pattern::AssignmentPattern { left, right } => {
                self.pat(left);
                self.expr(right);
            }
        }
    }
    fn bound_prop<'a>(&mut self, p: &Property<'a>) {
        match p {
            Property::Shorthand(n) => self.decl(n),
            Property::Literal { key, value } => {
                self.key(key);
                self.bound(value);
            }
            Property::Method { .. } => self.prop(p),
            Property::Spread { argument } => self.bound(argument),
        }
    }
    fn bound<'a>(&mut self, e: &ExpressionNode<'a>) {
        match e.item {
            Expression::Identifier(n) => self.decl(n),
            Expression::Object(ref o) => {
                for p in o.body {
                    self.bound_prop(p);
                }
            }
            Expression::Array(ref a) => {
                for e in a.body {
                    self.bound(e);
                }
            }
            Expression::Spread(ref s) => self.bound(&s.argument),
            Expression::Binary(ref b) if b.operator == OperatorKind::Assign => {
                self.bound(&b.left);
                self.expr(&b.right);
            }
            _ => self.expr(e),
        }
    }
    fn key<'a>(&mut self, k: &PropertyKey<'a>) {
        if let PropertyKey::Computed(e) = k {
            self.expr(e);
        }
    }
    fn prop<'a>(&mut self, p: &Property<'a>) {
        match p {
            Property::Shorthand(n) => self.usage(n),
            Property::Literal { key, value } => {
                self.key(key);
                self.expr(value);
            }
            Property::Method { key, value } => {
                self.key(key);
                self.fun(value);
            }
            Property::Spread { argument } => self.expr(argument),
        }
    }
    fn fun<'a, N: Name<'a>>(&mut self, f: &Function<'a, N>) {
        self.0.push(Ev::Enter(ScopeKind::Function));
        for p in f.params {
            self.pat(p);
        }
        self.list(f.body.body);
        self.0.push(Ev::Leave);
    }
    fn cls<'a, N: Name<'a>>(&mut self, c: &Class<'a, N>) {
        if let Some(e) = &c.extends {
            self.expr(e);
        }
        for m in c.body.body {
            match m.item {
                ClassMember::Error => {}
                ClassMember::Method { ref key, ref value, .. } => {
                    self.key(key);
                    self.fun(value);
                }
                ClassMember::Literal { ref key, ref value, .. } => {
                    self.key(key);
                    self.expr(value);
                }
            }
        }
    }
    fn exprs<'a>(&mut self, l: ExpressionList<'a>) {
        for e in l {
            self.expr(e);
        }
    }

    fn expr<'a>(&mut self, n: &ExpressionNode<'a>) {
        use self::Expression::*;
        let at = loc_addr(n);
        match n.item {
            Void => return,
            This(_) => {
                self.0.push(Ev::Node("on_this_expression", at, 0));
                self.0.push(Ev::This);
                return;
            }
            Literal(ref i) => return self.node("on_literal_expression", at, i, false),
            Identifier(ref i) => {
                self.node("on_identifier_expression", at, i, true);
                self.usage(i);
            }
            Sequence(ref i) => {
                self.node("on_sequence_expression", at, i, true);
                self.exprs(i.body);
            }
            Array(ref i) => {
                self.node("on_array_expression", at, i, true);
                self.exprs(i.body);
            }
            Member(ref i) => {
                self.node("on_member_expression", at, i, true);
                self.expr(&i.object);
            }
            ComputedMember(ref i) => {
                self.node("on_computed_member_expression", at, i, true);
                self.expr(&i.object);
                self.expr(&i.property);
            }
            MetaProperty(ref i) => self.node("on_meta_property", at, i, true),
            Call(ref i) => {
                self.node("on_call_expression", at, i, true);
                self.expr(&i.callee);
                self.exprs(i.arguments);
            }
            Binary(ref i) => {
                self.node("on_binary_expression", at, i, true);
                self.expr(&i.left);
                self.expr(&i.right);
            }
            Prefix(ref i) => {
                self.node("on_prefix_expression", at, i, true);
                self.expr(&i.operand);
            }
            Postfix(ref i) => {
                self.node("on_postfix_expression", at, i, true);
                self.expr(&i.operand);
            }
            Conditional(ref i) => {
                self.node("on_conditional_expression", at, i, true);
                self.expr(&i.test);
                self.expr(&i.consequent);
                self.expr(&i.alternate);
            }
            Template(ref i) => {
                self.node("on_template_literal", at, i, true);
                self.exprs(i.expressions);
            }
            TaggedTemplate(ref i) => {
                self.node("on_tagged_template_expression", at, i, true);
                self.expr(&i.tag);
                self.exprs(i.quasi.expressions);
            }
            Spread(ref i) => {
                self.node("on_spread_expression", at, i, true);
                self.expr(&i.argument);
            }
            Arrow(ref i) => {
                self.node("on_arrow_expression", at, i, true);
                self.0.push(Ev::Enter(ScopeKind::Function));
                for p in i.params {
                    self.pat(p);
                }
                match i.body {
                    ArrowBody::Expression(ref e) => self.expr(e),
                    ArrowBody::Block(ref b) => self.list(b.body),
                }
                self.0.push(Ev::Leave);
            }
            Object(ref i) => {
                self.node("on_object_expression", at, i, true);
                for p in i.body {
                    self.prop(p);
                }
            }
            Function(ref i) => {
                self.node("on_function_expression", at, i, true);
                self.fun(i);
            }
            Class(ref i) => {
                self.node("on_class_expression", at, i, true);
                self.cls(i);
            }
        }
        self.done();
    }

    fn stmt<'a>(&mut self, n: &StatementNode<'a>) {
        use self::Statement::*;
        let at = loc_addr(n);
        match n.item {
            Empty | Debugger => return,
            Expression(ref i) => {
                self.node("on_expression_statement", at, i, true);
                self.expr(i);
            }
            Declaration(ref i) => {
                self.node("on_declaration_statement", at, i, true);
                self.decls(i);
            }
            Return(ref i) => {
                self.node("on_return_statement", at, i, true);
                if let Some(e) = &i.value {
                    self.expr(e);
                }
            }
            Break(ref i) => self.node("on_break_statement", at, i, true),
            Continue(ref i) => self.node("on_continue_statement", at, i, true),
            Throw(ref i) => {
                self.node("on_throw_statement", at, i, true);
                self.expr(&i.value);
            }
            If(ref i) => {
                self.node("on_if_statement", at, i, true);
                self.expr(&i.test);
                self.stmt(&i.consequent);
                if let Some(s) = &i.alternate {
                    self.stmt(s);
                }
            }
            While(ref i) => {
                self.node("on_while_statement", at, i, true);
                self.expr(&i.test);
                self.stmt(&i.body);
            }
            Do(ref i) => {
                self.node("on_do_statement", at, i, true);
                self.stmt(&i.body);
                self.expr(&i.test);
            }
            For(ref i) => {
                self.node("on_for_statement", at, i, true);
                if let Some(x) = &i.init {
                    self.init(x);
                }
                if let Some(x) = &i.test {
                    self.expr(x);
                }
                if let Some(x) = &i.update {
                    self.expr(x);
                }
                self.stmt(&i.body);
            }
            ForIn(ref i) => {
                self.node("on_for_in_statement", at, i, true);
                self.init(&i.left);
                self.expr(&i.right);
                self.stmt(&i.body);
            }
            ForOf(ref i) => {
                self.node("on_for_of_statement", at, i, true);
                self.init(&i.left);
                self.expr(&i.right);
                self.stmt(&i.body);
            }
            Try(ref i) => {
                self.node("on_try_statement", at, i, true);
                self.block(i.block.body);
                if let Some(h) = &i.handler {
                    self.0.push(Ev::Enter(ScopeKind::Block));
                    self.pat(&h.param);
                    self.list(h.body.body);
                    self.0.push(Ev::Leave);
                }
                if let Some(f) = &i.finalizer {
                    self.block(f.body);
                }
            }
            Block(ref i) => {
                self.node("on_block_statement", at, i, true);
                self.block(i.body);
            }
            Labeled(ref i) => {
                self.node("on_labeled_statement", at, i, true);
                self.stmt(&i.body);
            }
            Switch(ref i) => {
                self.node("on_switch_statement", at, i, true);
                self.expr(&i.discriminant);
                self.0.push(Ev::Enter(ScopeKind::Block));
                for c in i.cases.body {
                    if let Some(t) = &c.test {
                        self.expr(t);
                    }
                    self.list(c.consequent);
                }
                self.0.push(Ev::Leave);
            }
            Function(ref i) => {
                self.node("on_function_statement", at, i, true);
                self.decl(i.name.0.item);
                self.fun(i);
            }
            Class(ref i) => {
                self.node("on_class_statement", at, i, true);
                self.decl(i.name.0.item);
                self.cls(i);
            }
            Import(ref i) => {
                self.node("on_import_declaration_statement", at, i, true);
                for s in i.specifiers {
                    match s.item {
                        ForImportSpecifier::ImportSpecifier(ref s) => self.decl(s.local.item),
                        ForImportSpecifier::ImportDefaultSpecifier(ref s) => self.decl(s.local.item),
                        ForImportSpecifier::ImportNamespaceSpecifier(ref s) => self.decl(s.local.item),
                    }
                }
            }
        }
        self.done();
    }
}

/// Check V01 on a sequence of events: both stacks are well nested, and what
/// is on them when a node is reported is what encloses the node
pub fn balanced(got: &[Ev], want: &[Ev]) -> Result<(), String> {
    use std::collections::HashMap;
    type At = (Vec<usize>, Vec<ScopeKind>);
    fn run(evs: &[Ev], each: &mut dyn FnMut(&Ev, &At) -> Result<(), String>) -> Result<At, String> {
        let mut at: At = (Vec::new(), Vec::new());
        for (i, e) in evs.iter().enumerate() {
            match e {
                Ev::Push(n) => at.0.push(*n),
                Ev::Pop => {
                    if at.0.pop().is_none() {
                        return Err(format!("event {}: pop_parent without a parent on the stack", i));
                    }
                }
                Ev::Enter(k) => at.1.push(*k),
                Ev::Leave => {
                    if at.1.pop().is_none() {
                        return Err(format!("event {}: on_leave_scope without a scope", i));
                    }
                }
                _ => {}
            }
            each(e, &at)?;
        }
        Ok(at)
    }
    let mut exp: HashMap<usize, (At, &'static str)> = HashMap::new();
    let mut idents: Vec<At> = Vec::new();
    run(want, &mut |e, at| {
        match e {
            Ev::Node(n, id, _) => {
                exp.insert(*id, (at.clone(), n));
            }
            Ev::Use(_) | Ev::Decl(_) => idents.push(at.clone()),
            _ => {}
        }
        Ok(())
    })?;
    let mut k = 0;
    let count = got.iter().filter(|e| matches!(e, Ev::Use(_) | Ev::Decl(_))).count();
    let end = run(got, &mut |e, at| {
        match e {
            Ev::Node(n, id, _) => {
                if let Some((w, name)) = exp.get(id) {
                    if w.0 != at.0 {
                        return Err(format!("{} of a {} node: {} parents on the stack, {} expected, or others", n, name, at.0.len(), w.0.len()));
                    }
                    if w.1 != at.1 {
                        return Err(format!("{}: in scopes {:?}, expected {:?}", n, at.1, w.1));
                    }
                }
            }
            Ev::Use(n) | Ev::Decl(n) if count == idents.len() => {
                if idents[k].0 != at.0 {
                    return Err(format!("name {}: {} parents on the stack, {} expected, or others", n, at.0.len(), idents[k].0.len()));
                }
                k += 1;
            }
            _ => {}
        }
        Ok(())
    })?;
    if !end.0.is_empty() || !end.1.is_empty() {
        return Err(format!("at the end: {} parents, {} scopes left", end.0.len(), end.1.len()));
    }
    Ok(())
}

/// The occurrences of names, with the scopes they are in
pub fn names(evs: &[Ev]) -> Vec<String> {
    let mut scopes = Vec::new();
    let mut counts = vec![0];
    let mut out = Vec::new();
    for e in evs {
        match e {
            Ev::Enter(k) => {
                let n = counts.last_mut().unwrap();
                *n += 1;
                scopes.push(format!("{:?}{}", k, n));
                counts.push(0);
            }
            Ev::Leave => {
                scopes.pop();
                if counts.len() > 1 {
                    counts.pop();
                }
            }
            Ev::Use(n) => out.push(format!("use of {} in {:?}", n, scopes)),
            Ev::Decl(n) => out.push(format!("declaration of {} in {:?}", n, scopes)),
            _ => {}
        }
    }
    out
}

pub fn nodes(evs: &[Ev]) -> Vec<Ev> {
    evs.iter().filter(|e| matches!(e, Ev::Node(..) | Ev::List(_))).cloned().collect()
}

#[derive(PartialEq, Debug, Clone)]
pub struct Sc {
    pub kind: ScopeKind,
    pub used: std::collections::BTreeSet<String>,
    pub declared: std::collections::BTreeSet<String>,
    pub this: bool,
    pub children: Vec<Sc>,
}

impl Sc {
    fn new(kind: ScopeKind) -> Sc {
        Sc { kind, used: Default::default(), declared: Default::default(), this: false, children: Vec::new() }
    }
}

pub fn scopes(evs: &[Ev]) -> Sc {
    let mut st = vec![Sc::new(ScopeKind::Function)];
    for e in evs {
        match e {
            Ev::Enter(k) => st.push(Sc::new(*k)),
            Ev::Leave => {
                let s = st.pop().unwrap();
                st.last_mut().unwrap().children.push(s);
            }
            Ev::Use(n) => {
                st.last_mut().unwrap().used.insert(n.clone());
            }
            Ev::Decl(n) => {
                st.last_mut().unwrap().declared.insert(n.clone());
            }
            Ev::This => st.last_mut().unwrap().this = true,
            _ => {}
        }
    }
    st.pop().unwrap()
}
