//! Program trees of the harness' own, a generator for them, and their
//! canonical form. The trees know nothing about ratel's syntax tree.
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Id(String),
    This,
    Lit(String),
    Re(String),
    Tpl(Vec<String>, Vec<E>),
    Tag(Box<E>, Vec<String>, Vec<E>),
    Arr(Vec<Option<E>>),
    Obj(Vec<Prop>),
    Fun(Option<String>, bool, Vec<Pat>, Vec<S>),
    Cls(Option<String>, Option<Box<E>>, Vec<Member>),
    Arrow(Vec<(String, Option<E>)>, ABody),
    Seq(Vec<E>),
    Bin(&'static str, Box<E>, Box<E>),
    Asg(&'static str, Box<E>, Box<E>),
    Cond(Box<E>, Box<E>, Box<E>),
    Pre(&'static str, Box<E>),
    Post(&'static str, Box<E>),
    New(Box<E>, Option<Vec<E>>),
    Call(Box<E>, Vec<E>),
    Mem(Box<E>, String),
    Idx(Box<E>, Box<E>),
    NewTarget,
    Spread(Box<E>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum ABody {
    Expr(Box<E>),
    Block(Vec<S>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Key {
    Word(String),
    Bin(String),
    Comp(Box<E>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Prop {
    Short(String),
    KV(Key, E),
    Method(Key, Vec<Pat>, Vec<S>),
    Spread(E),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Member {
    Method(bool, &'static str, Key, Vec<Pat>, Vec<S>),
    Field(bool, Key, E),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Pat {
    Void,
    Id(String),
    Obj(Vec<Prop>),
    Arr(Vec<Pat>),
    Rest(String),
    Def(Box<Pat>, E),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Init {
    Decl(&'static str, Vec<(Pat, Option<E>)>),
    Expr(E),
}

#[derive(Clone, Debug, PartialEq)]
pub enum S {
    Empty,
    Debugger,
    Expr(E),
    Decl(&'static str, Vec<(Pat, Option<E>)>),
    Return(Option<E>),
    Break(Option<String>),
    Continue(Option<String>),
    Throw(E),
    If(E, Box<S>, Option<Box<S>>),
    While(E, Box<S>),
    Do(Box<S>, E),
    For(Option<Init>, Option<E>, Option<E>, Box<S>),
    ForIn(Init, E, Box<S>),
    ForOf(Init, E, Box<S>),
    Block(Vec<S>),
    Switch(E, Vec<(Option<E>, Vec<S>)>),
    Try(Vec<S>, Option<(Pat, Vec<S>)>, Option<Vec<S>>),
    Label(String, Box<S>),
    Fun(String, bool, Vec<Pat>, Vec<S>),
    Cls(String, Option<Box<E>>, Vec<Member>),
    Import(Vec<Spec>, String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Spec {
    Default(String),
    Name(String, String),
    Ns(String),
}

// ------------------------------------------------------------ canonical form

pub fn canon(stmts: &[S]) -> String {
    let mut o = String::new();
    for s in stmts {
        c_s(s, &mut o);
        o.push('\n');
    }
    o
}

fn list<T>(o: &mut String, items: &[T], f: impl Fn(&T, &mut String)) {
    o.push('[');
    for i in items {
        o.push(' ');
        f(i, o);
    }
    o.push(']');
}

fn opt<T>(o: &mut String, item: Option<&T>, f: impl Fn(&T, &mut String)) {
    o.push(' ');
    match item {
        Some(i) => f(i, o),
        None => o.push('-'),
    }
}

fn word(o: &mut String, w: &str) {
    o.push_str(&format!("{:?}", w));
}

fn c_key(k: &Key, o: &mut String) {
    match k {
        Key::Word(w) => word(o, w),
        Key::Bin(w) => {
            o.push_str("bin");
            word(o, w)
        }
        Key::Comp(e) => {
            o.push_str("(computed ");
            c_e(e, o);
            o.push(')');
        }
    }
}

fn c_fun(gen: bool, params: &[Pat], body: &[S], o: &mut String) {
    o.push_str(if gen { " *" } else { " " });
    list(o, params, c_pat);
    list(o, body, c_s);
}

fn c_prop(p: &Prop, o: &mut String) {
    o.push('(');
    match p {
        Prop::Short(w) => {
            o.push_str("short ");
            word(o, w)
        }
        Prop::KV(k, e) => {
            o.push_str("kv ");
            c_key(k, o);
            o.push(' ');
            c_e(e, o)
        }
        Prop::Method(k, ps, b) => {
            o.push_str("method ");
            c_key(k, o);
            c_fun(false, ps, b, o)
        }
        Prop::Spread(e) => {
            o.push_str("spread ");
            c_e(e, o)
        }
    }
    o.push(')');
}

fn c_member(m: &Member, o: &mut String) {
    o.push('(');
    match m {
        Member::Method(st, kind, k, ps, b) => {
            o.push_str(&format!("{} {} ", if *st { "static" } else { "member" }, kind));
            c_key(k, o);
            c_fun(false, ps, b, o);
        }
        Member::Field(st, k, e) => {
            o.push_str(&format!("{} field ", if *st { "static" } else { "member" }));
            c_key(k, o);
            o.push(' ');
            c_e(e, o);
        }
    }
    o.push(')');
}

fn c_pat(p: &Pat, o: &mut String) {
    match p {
        Pat::Void => o.push_str("<void>"),
        Pat::Id(w) => o.push_str(w),
        Pat::Obj(ps) => {
            o.push_str("(objpat ");
            list(o, ps, c_prop);
            o.push(')');
        }
        Pat::Arr(ps) => {
            o.push_str("(arrpat ");
            list(o, ps, c_pat);
            o.push(')');
        }
        Pat::Rest(w) => o.push_str(&format!("(rest {})", w)),
        Pat::Def(p, e) => {
            o.push_str("(default ");
            c_pat(p, o);
            o.push(' ');
            c_e(e, o);
            o.push(')');
        }
    }
}

fn c_cls(ext: &Option<Box<E>>, ms: &[Member], o: &mut String) {
    opt(o, ext.as_ref(), |e, o| c_e(e, o));
    list(o, ms, c_member);
}

fn c_e(e: &E, o: &mut String) {
    match e {
        E::Id(w) => return o.push_str(w),
        E::This => return o.push_str("<this>"),
        E::Lit(w) => return o.push_str(&format!("<{}>", w)),
        E::Re(w) => return o.push_str(&format!("<re {}>", w)),
        _ => {}
    }
    o.push('(');
    match e {
        E::Id(_) | E::This | E::Lit(_) | E::Re(_) => {}
        E::Tpl(qs, es) => {
            o.push_str("tpl ");
            list(o, qs, |q, o| word(o, q));
            list(o, es, c_e);
        }
        E::Tag(t, qs, es) => {
            o.push_str("tag ");
            c_e(t, o);
            list(o, qs, |q, o| word(o, q));
            list(o, es, c_e);
        }
        E::Arr(es) => {
            o.push_str("arr ");
            list(o, es, |e, o| match e {
                Some(e) => c_e(e, o),
                None => o.push_str("<void>"),
            });
        }
        E::Obj(ps) => {
            o.push_str("obj ");
            list(o, ps, c_prop);
        }
        E::Fun(n, g, ps, b) => {
            o.push_str(&format!("fun {}", n.as_ref().map_or("-", |n| n)));
            c_fun(*g, ps, b, o);
        }
        E::Cls(n, ext, ms) => {
            o.push_str(&format!("cls {}", n.as_ref().map_or("-", |n| n)));
            c_cls(ext, ms, o);
        }
        E::Arrow(ps, b) => {
            o.push_str("arrow ");
            list(o, ps, |(n, d), o| match d {
                Some(d) => {
                    o.push_str(&format!("(default {} ", n));
                    c_e(d, o);
                    o.push(')');
                }
                None => o.push_str(n),
            });
            match b {
                ABody::Expr(e) => {
                    o.push(' ');
                    c_e(e, o)
                }
                ABody::Block(b) => list(o, b, c_s),
            }
        }
        E::Seq(es) => {
            o.push_str("seq ");
            list(o, es, c_e);
        }
        E::Bin(op, l, r) | E::Asg(op, l, r) => {
            o.push_str(&format!("{} ", op));
            c_e(l, o);
            o.push(' ');
            c_e(r, o);
        }
        E::Cond(t, c, a) => {
            o.push_str("? ");
            c_e(t, o);
            o.push(' ');
            c_e(c, o);
            o.push(' ');
            c_e(a, o);
        }
        E::Pre(op, e) => {
            o.push_str(&format!("pre{} ", op));
            c_e(e, o);
        }
        E::Post(op, e) => {
            o.push_str(&format!("post{} ", op));
            c_e(e, o);
        }
        E::New(callee, args) => {
            // `new (f())` is `new (f())()` 
            o.push_str("new ");
            c_e(callee, o);
            let call = matches!(**callee, E::Call(..));
            match args {
                Some(args) => list(o, args, c_e),
                None if call => o.push_str("[]"),
                None => {}
            }
        }
        E::Call(callee, args) => {
            o.push_str("call ");
            c_e(callee, o);
            list(o, args, c_e);
        }
        E::Mem(e, n) => {
            o.push_str(". ");
            c_e(e, o);
            o.push(' ');
            o.push_str(n);
        }
        E::Idx(a, b) => {
            o.push_str("idx ");
            c_e(a, o);
            o.push(' ');
            c_e(b, o);
        }
        E::NewTarget => o.push_str("meta new target"),
        E::Spread(e) => {
            o.push_str("... ");
            c_e(e, o);
        }
    }
    o.push(')');
}

fn c_decl(kind: &str, ds: &[(Pat, Option<E>)], o: &mut String) {
    o.push_str(kind);
    o.push(' ');
    list(o, ds, |(p, e), o| {
        c_pat(p, o);
        opt(o, e.as_ref(), |e, o| c_e(e, o));
    });
}

fn c_init(i: &Init, o: &mut String) {
    match i {
        Init::Decl(k, ds) => c_decl(k, ds, o),
        Init::Expr(e) => c_e(e, o),
    }
}

fn c_s(s: &S, o: &mut String) {
    o.push('(');
    match s {
        S::Empty => o.push_str("empty"),
        S::Debugger => o.push_str("debugger"),
        S::Expr(e) => {
            o.push_str("expr ");
            c_e(e, o)
        }
        S::Decl(k, ds) => c_decl(k, ds, o),
        S::Return(e) => {
            o.push_str("return");
            opt(o, e.as_ref(), |e, o| c_e(e, o))
        }
        S::Break(l) => {
            o.push_str("break");
            opt(o, l.as_ref(), |l, o| o.push_str(l))
        }
        S::Continue(l) => {
            o.push_str("continue");
            opt(o, l.as_ref(), |l, o| o.push_str(l))
        }
        S::Throw(e) => {
            o.push_str("throw ");
            c_e(e, o)
        }
        S::If(t, c, a) => {
            o.push_str("if ");
            c_e(t, o);
            o.push(' ');
            c_s(c, o);
            opt(o, a.as_ref(), |s, o| c_s(s, o));
        }
        S::While(t, b) => {
            o.push_str("while ");
            c_e(t, o);
            o.push(' ');
            c_s(b, o);
        }
        S::Do(b, t) => {
            o.push_str("do ");
            c_s(b, o);
            o.push(' ');
            c_e(t, o);
        }
        S::For(i, t, u, b) => {
            o.push_str("for");
            opt(o, i.as_ref(), |i, o| c_init(i, o));
            opt(o, t.as_ref(), |e, o| c_e(e, o));
            opt(o, u.as_ref(), |e, o| c_e(e, o));
            o.push(' ');
            c_s(b, o);
        }
        S::ForIn(i, e, b) => {
            o.push_str("forin ");
            c_init(i, o);
            o.push(' ');
            c_e(e, o);
            o.push(' ');
            c_s(b, o);
        }
        S::ForOf(i, e, b) => {
            o.push_str("forof ");
            c_init(i, o);
            o.push(' ');
            c_e(e, o);
            o.push(' ');
            c_s(b, o);
        }
        S::Block(b) => {
            o.push_str("block");
            list(o, b, c_s)
        }
        S::Switch(e, cs) => {
            o.push_str("switch ");
            c_e(e, o);
            list(o, cs, |(t, b), o| {
                o.push_str("(case");
                opt(o, t.as_ref(), |e, o| c_e(e, o));
                list(o, b, c_s);
                o.push(')');
            });
        }
        S::Try(b, c, f) => {
            o.push_str("try");
            list(o, b, c_s);
            opt(o, c.as_ref(), |(p, b), o| {
                o.push_str("(catch ");
                c_pat(p, o);
                list(o, b, c_s);
                o.push(')');
            });
            opt(o, f.as_ref(), |b, o| list(o, b, c_s));
        }
        S::Label(l, b) => {
            o.push_str(&format!("label {} ", l));
            c_s(b, o)
        }
        S::Fun(n, g, ps, b) => {
            o.push_str(&format!("function {}", n));
            c_fun(*g, ps, b, o);
        }
        S::Cls(n, ext, ms) => {
            o.push_str(&format!("class {}", n));
            c_cls(ext, ms, o);
        }
        S::Import(specs, src) => {
            o.push_str("import ");
            list(o, specs, |s, o| match s {
                Spec::Default(l) => o.push_str(&format!("(default {})", l)),
                Spec::Name(i, l) => o.push_str(&format!("(name {} {})", i, l)),
                Spec::Ns(l) => o.push_str(&format!("(ns {})", l)),
            });
            word(o, src);
        }
    }
    o.push(')');
}

// ----------------------------------------------------------------- generator

pub struct Gen<'r> {
    pub r: &'r mut Rng,
    pub fuel: i32,
    /// Restrict to expressions built from operators and simple operands
    pub ops_only: bool,
}

const IDS: &[&str] = &[
    "a", "b", "c", "d", "x", "y", "z", "i", "j", "$", "_", "foo", "bar", "of", "as", "from", "get", "set",
    "inner", "newer", "iff", "dot", "fort", "lets", "nullish", "thiss", "undefinedd", "tryx", "async", "ünï", "日本", "a1",
];

const KEYWORDS: &[&str] = &[
    "break", "do", "case", "else", "catch", "export", "class", "extends", "return", "while", "finally", "super", "with",
    "continue", "for", "switch", "yield", "debugger", "function", "this", "default", "if", "throw", "import", "try",
    "static", "new", "typeof", "void", "delete", "instanceof", "true", "false", "null", "undefined",
];

const LITS: &[&str] = &[
    "0", "1", "42", "1.5", "0.25", ".5", "1e3", "2E+4", "3e-1", "0x1F", "0XaB", "0b101", "0o17", "007", "1.", "true", "false",
    "null", "undefined", "''", "'a'", "\"b\"", "'it\\'s'", "\"say \\\"x\\\"\"", "'\\\\'", "'é→'", "'//'", "\"/* */\"", "'`${'",
    "\"'\"", "'\"'", "'\\n'", "5e1",
];

const RES: &[&str] = &[
    "/a/", "/[/]/g", "/\\//", "/[\\]/]/i", "/(a|b)+$/gi", "/\\\\/", "/[^\\/]*/m", "/x{1,2}/u", "/\\[/y", "/'/", "/\"`/",
];

const QUASIS: &[&str] = &["", "a", " b ", "\\`", "$", "$$", "\\${", "{", "}", "\n", "//", "é", "\\\\", "'", "$\\{"];

const BINOPS: &[(&str, u8)] = &[
    ("||", 4), ("&&", 5), ("|", 6), ("^", 7), ("&", 8), ("==", 9), ("!=", 9), ("===", 9), ("!==", 9),
    ("<", 10), (">", 10), ("<=", 10), (">=", 10), ("in", 10), ("instanceof", 10), ("<<", 11), (">>", 11), (">>>", 11),
    ("+", 12), ("-", 12), ("*", 13), ("/", 13), ("%", 13), ("**", 14),
];

const ASGOPS: &[&str] = &["=", "+=", "-=", "**=", "*=", "/=", "%=", "<<=", ">>=", ">>>=", "&=", "^=", "|="];
const PREOPS: &[&str] = &["!", "~", "typeof", "void", "delete", "+", "-"];

pub fn binop_level(op: &str) -> u8 {
    BINOPS.iter().find(|b| b.0 == op).unwrap().1
}

impl<'r> Gen<'r> {
    pub fn new(r: &'r mut Rng, fuel: i32) -> Gen<'r> {
        Gen { r, fuel, ops_only: false }
    }

    fn spend(&mut self) -> bool {
        self.fuel -= 1;
        self.fuel > 0
    }

    fn id(&mut self) -> String {
        self.r.pick(IDS).to_string()
    }

    fn name(&mut self) -> String {
        // Property names can be keywords
        if self.r.chance(1, 4) {
            self.r.pick(KEYWORDS).to_string()
        } else {
            self.id()
        }
    }

    fn count(&mut self, max: usize) -> usize {
        if self.fuel <= 0 {
            0
        } else {
            self.r.below(max + 1)
        }
    }

    pub fn program(&mut self) -> Vec<S> {
        let n = 1 + self.r.below(4);
        (0..n).map(|_| self.stmt(true)).collect()
    }

    fn body(&mut self) -> Vec<S> {
        let n = self.count(3);
        (0..n).map(|_| self.stmt(false)).collect()
    }

    fn key(&mut self) -> Key {
        match self.r.below(8) {
            0 => Key::Word(self.r.pick(&["'k'", "\"x y\"", "1", "0x2", "1.5"]).to_string()),
            1 => Key::Bin("0b11".to_string()),
            2 => Key::Comp(Box::new(self.expr())),
            _ => Key::Word(self.name()),
        }
    }

    fn params(&mut self) -> Vec<Pat> {
        let n = self.r.below(3);
        let mut v: Vec<Pat> = (0..n).map(|_| self.pat(true)).collect();
        if self.r.chance(1, 6) {
            v.push(Pat::Rest(self.id()));
        }
        v
    }

    /// A binding pattern, with a default value if `def` says it can have one
    fn pat(&mut self, def: bool) -> Pat {
        let p = if self.fuel <= 0 || self.r.chance(2, 3) {
            Pat::Id(self.id())
        } else if self.r.chance(1, 2) {
            self.fuel -= 1;
            let n = self.r.below(4);
            let mut items: Vec<Pat> = (0..n)
                .map(|_| if self.r.chance(1, 6) { Pat::Void } else { self.pat(true) })
                .collect();
            // A trailing elision is written with a comma that would be dropped
            if let Some(Pat::Void) = items.last() {
                items.push(Pat::Id(self.id()));
            }
            Pat::Arr(items)
        } else {
            self.fuel -= 1;
            let n = self.r.below(3);
            Pat::Obj((0..n).map(|_| self.pat_prop()).collect())
        };
        if def && self.r.chance(1, 4) {
            let e = self.expr();
            Pat::Def(Box::new(p), e)
        } else {
            p
        }
    }

    fn pat_prop(&mut self) -> Prop {
        if self.r.chance(1, 2) {
            return Prop::Short(self.id());
        }
        let key = self.key();
        let target = match self.r.below(5) {
            0 => E::Obj(vec![Prop::Short(self.id())]),
            1 => E::Arr(vec![Some(E::Id(self.id())), None, Some(E::Id(self.id()))]),
            _ => E::Id(self.id()),
        };
        if self.r.chance(1, 4) {
            let d = self.assignable_value();
            Prop::KV(key, E::Asg("=", Box::new(target), Box::new(d)))
        } else {
            Prop::KV(key, target)
        }
    }

    fn assignable_value(&mut self) -> E {
        self.expr()
    }

    fn lvalue(&mut self) -> E {
        match self.r.below(4) {
            0 => {
                let o = self.expr();
                let n = self.name();
                E::Mem(Box::new(o), n)
            }
            1 => {
                let o = self.expr();
                let p = self.expr();
                E::Idx(Box::new(o), Box::new(p))
            }
            _ => E::Id(self.id()),
        }
    }

    fn args(&mut self) -> Vec<E> {
        let n = self.count(3);
        (0..n)
            .map(|_| {
                let e = self.expr();
                if self.r.chance(1, 8) {
                    E::Spread(Box::new(e))
                } else {
                    e
                }
            })
            .collect()
    }

    fn atom(&mut self) -> E {
        match self.r.below(8) {
            0 => E::This,
            1 | 2 => E::Lit(self.r.pick(LITS).to_string()),
            3 if !self.ops_only => E::Re(self.r.pick(RES).to_string()),
            _ => E::Id(self.id()),
        }
    }

    fn quasis(&mut self) -> (Vec<String>, Vec<E>) {
        let n = self.r.below(3);
        let es: Vec<E> = (0..n).map(|_| self.expr()).collect();
        let qs = (0..=n).map(|i| {
            let q = *self.r.pick(QUASIS);
            // A `$` directly before a `{` would open a substitution
            if i < n && q.ends_with('$') { "q".to_string() } else { q.to_string() }
        }).collect();
        (qs, es)
    }

    pub fn expr(&mut self) -> E {
        if !self.spend() {
            return self.atom();
        }
        let b = |e: E| Box::new(e);
        let top = if self.ops_only { 14 } else { 26 };
        match self.r.below(top) {
            0 | 1 => self.atom(),
            2 | 3 | 4 | 5 => {
                let op = self.r.pick(BINOPS);
                let l = self.expr();
                let r = self.expr();
                E::Bin(op.0, b(l), b(r))
            }
            6 => {
                let op = *self.r.pick(ASGOPS);
                let l = self.lvalue();
                let r = self.expr();
                E::Asg(op, b(l), b(r))
            }
            7 => {
                let t = self.expr();
                let c = self.expr();
                let a = self.expr();
                E::Cond(b(t), b(c), b(a))
            }
            8 => {
                let op = *self.r.pick(PREOPS);
                let e = self.expr();
                E::Pre(op, b(e))
            }
            9 => {
                let op = *self.r.pick(&["++", "--"]);
                let e = self.lvalue();
                if self.r.chance(1, 2) {
                    E::Pre(op, b(e))
                } else {
                    E::Post(op, b(e))
                }
            }
            10 => {
                let n = 2 + self.r.below(2);
                E::Seq((0..n).map(|_| self.expr()).collect())
            }
            11 => {
                let c = self.expr();
                let a = self.args();
                E::Call(b(c), a)
            }
            12 => {
                let c = self.expr();
                let a = if self.r.chance(1, 3) { None } else { Some(self.args()) };
                E::New(b(c), a)
            }
            13 => self.lvalue(),
            14 => {
                let (q, e) = self.quasis();
                E::Tpl(q, e)
            }
            15 => {
                let t = self.expr();
                let (q, e) = self.quasis();
                E::Tag(b(t), q, e)
            }
            16 | 17 => {
                let n = self.r.below(4);
                let mut v: Vec<Option<E>> = (0..n)
                    .map(|_| match self.r.below(8) {
                        0 => None,
                        1 => Some(E::Spread(b(self.expr()))),
                        _ => Some(self.expr()),
                    })
                    .collect();
                if let Some(None) = v.last() {
                    let e = self.atom();
                    v.push(Some(e));
                }
                E::Arr(v)
            }
            18 | 19 => {
                let n = self.r.below(4);
                E::Obj((0..n).map(|_| self.prop()).collect())
            }
            20 | 21 => {
                let n = if self.r.chance(1, 2) { Some(self.id()) } else { None };
                let g = self.r.chance(1, 6);
                let ps = self.params();
                let body = self.body();
                E::Fun(n, g, ps, body)
            }
            22 => {
                let n = if self.r.chance(1, 2) { Some(self.id()) } else { None };
                let (x, m) = self.class();
                E::Cls(n, x, m)
            }
            23 | 24 => {
                let n = self.r.below(3);
                let ps = (0..n)
                    .map(|_| {
                        let id = self.id();
                        let d = if self.r.chance(1, 4) { Some(self.expr()) } else { None };
                        (id, d)
                    })
                    .collect();
                let body = if self.r.chance(1, 2) {
                    ABody::Expr(b(self.expr()))
                } else {
                    ABody::Block(self.body())
                };
                E::Arrow(ps, body)
            }
            _ => E::NewTarget,
        }
    }

    fn prop(&mut self) -> Prop {
        match self.r.below(6) {
            0 => Prop::Short(self.id()),
            1 => {
                let k = self.key();
                let ps = self.params();
                let body = self.body();
                Prop::Method(k, ps, body)
            }
            2 => Prop::Spread(self.expr()),
            _ => {
                let k = self.key();
                let e = self.expr();
                Prop::KV(k, e)
            }
        }
    }

    fn class(&mut self) -> (Option<Box<E>>, Vec<Member>) {
        let ext = if self.r.chance(1, 3) { Some(Box::new(self.expr())) } else { None };
        let n = self.count(3);
        let ms = (0..n)
            .map(|_| {
                let st = self.r.chance(1, 4);
                let key = loop {
                    match self.key() {
                        // String keys are not supported in classes, and
                        // these words have a meaning of their own there
                        Key::Word(ref w) if w.starts_with('\'') || w.starts_with('"') => {}
                        Key::Word(ref w) if w == "static" => {}
                        k => break k,
                    }
                };
                if self.r.chance(1, 3) {
                    let e = self.expr();
                    Member::Field(st, key, e)
                } else {
                    let word = match key {
                        Key::Word(ref w) => w.chars().next().map_or(false, |c| !c.is_ascii_digit() && c != '.'),
                        _ => false,
                    };
                    let kind = match key {
                        Key::Word(ref w) if w == "constructor" && !st => "constructor",
                        _ if word && self.r.chance(1, 3) => *self.r.pick(&["get", "set"]),
                        _ => "method",
                    };
                    let key = if kind == "method" && !st && self.r.chance(1, 8) { Key::Word("constructor".into()) } else { key };
                    let kind = match key {
                        Key::Word(ref w) if w == "constructor" && !st && kind == "method" => "constructor",
                        _ => kind,
                    };
                    let ps = self.params();
                    let body = self.body();
                    Member::Method(st, kind, key, ps, body)
                }
            })
            .collect();
        (ext, ms)
    }

    fn decls(&mut self) -> Vec<(Pat, Option<E>)> {
        let n = 1 + self.r.below(2);
        (0..n)
            .map(|_| {
                let p = self.pat(false);
                let i = if self.r.chance(2, 3) { Some(self.expr()) } else { None };
                (p, i)
            })
            .collect()
    }

    fn kind(&mut self) -> &'static str {
        *self.r.pick(&["var", "let", "const"])
    }

    /// A statement that is the body of another one
    fn inner(&mut self) -> S {
        if self.fuel <= 0 {
            return S::Empty;
        }
        loop {
            match self.stmt(false) {
                S::Fun(..) | S::Cls(..) | S::Import(..) => self.fuel -= 1,
                S::Decl(k, _) if k != "var" => self.fuel -= 1,
                s => return s,
            }
            if self.fuel <= 0 {
                return S::Empty;
            }
        }
    }

    pub fn stmt(&mut self, top: bool) -> S {
        if !self.spend() {
            return S::Expr(self.atom());
        }
        let b = |s: S| Box::new(s);
        match self.r.below(30) {
            0 => S::Empty,
            1 => S::Debugger,
            2 | 3 | 4 => {
                let k = self.kind();
                let d = self.decls();
                S::Decl(k, d)
            }
            5 => {
                let e = if self.r.chance(2, 3) { Some(self.expr()) } else { None };
                S::Return(e)
            }
            6 => S::Break(if self.r.chance(1, 2) { Some(self.id()) } else { None }),
            7 => S::Continue(if self.r.chance(1, 2) { Some(self.id()) } else { None }),
            8 => S::Throw(self.expr()),
            9 | 10 => {
                let t = self.expr();
                let c = self.inner();
                let a = if self.r.chance(1, 2) { Some(self.inner()) } else { None };
                let a = if a.is_some() && open_if(&c) { None } else { a };
                S::If(t, b(c), a.map(b))
            }
            11 => {
                let t = self.expr();
                let s = self.inner();
                S::While(t, b(s))
            }
            12 => {
                let s = self.inner();
                let t = self.expr();
                S::Do(b(s), t)
            }
            13 => {
                let i = match self.r.below(3) {
                    0 => None,
                    1 => {
                        let k = self.kind();
                        let d = self.decls();
                        Some(Init::Decl(k, d))
                    }
                    _ => Some(Init::Expr(self.expr())),
                };
                let t = if self.r.chance(1, 2) { Some(self.expr()) } else { None };
                let u = if self.r.chance(1, 2) { Some(self.expr()) } else { None };
                let s = self.inner();
                S::For(i, t, u, b(s))
            }
            14 | 15 => {
                let i = if self.r.chance(1, 2) {
                    let k = self.kind();
                    let p = self.pat(false);
                    Init::Decl(k, vec![(p, None)])
                } else {
                    Init::Expr(self.lvalue())
                };
                let e = self.expr();
                let s = self.inner();
                if self.r.chance(1, 2) {
                    S::ForIn(i, e, b(s))
                } else {
                    S::ForOf(i, e, b(s))
                }
            }
            16 | 17 => S::Block(self.body()),
            18 => {
                let e = self.expr();
                let n = self.r.below(3);
                let cs = (0..n)
                    .map(|_| {
                        let t = if self.r.chance(3, 4) { Some(self.expr()) } else { None };
                        let body = self.body();
                        (t, body)
                    })
                    .collect();
                S::Switch(e, cs)
            }
            19 => {
                let body = self.body();
                let c = if self.r.chance(2, 3) {
                    let p = self.pat(false);
                    let cb = self.body();
                    Some((p, cb))
                } else {
                    None
                };
                let f = if c.is_none() || self.r.chance(1, 2) { Some(self.body()) } else { None };
                S::Try(body, c, f)
            }
            20 => {
                let l = self.id();
                let s = self.inner();
                S::Label(l, b(s))
            }
            21 | 22 => {
                let n = self.id();
                let g = self.r.chance(1, 6);
                let ps = self.params();
                let body = self.body();
                S::Fun(n, g, ps, body)
            }
            23 => {
                let n = self.id();
                let (x, m) = self.class();
                S::Cls(n, x, m)
            }
            24 if top => {
                let mut specs = Vec::new();
                if self.r.chance(1, 2) {
                    specs.push(Spec::Default(self.id()));
                }
                match self.r.below(3) {
                    0 => specs.push(Spec::Ns(self.id())),
                    1 => {
                        for _ in 0..1 + self.r.below(2) {
                            let n = self.id();
                            let l = if self.r.chance(1, 2) { n.clone() } else { self.id() };
                            specs.push(Spec::Name(n, l));
                        }
                    }
                    _ => {}
                }
                S::Import(specs, self.r.pick(&["m", "a/b", "it's", "é"]).to_string())
            }
            _ => S::Expr(self.expr()),
        }
    }
}

/// Whether an `else` behind the statement would belong to it
pub fn open_if(s: &S) -> bool {
    match s {
        S::If(_, _, None) => true,
        S::If(_, _, Some(a)) => open_if(a),
        S::While(_, b) | S::For(_, _, _, b) | S::ForIn(_, _, b) | S::ForOf(_, _, b) | S::Label(_, b) => open_if(b),
        _ => false,
    }
}

pub fn program(r: &mut Rng, size: i32) -> Vec<S> {
    Gen::new(r, size).program()
}
