//! Writes the trees of `tree.rs` as JavaScript tokens, parenthesised by the
//! precedence table of the language, and lays the tokens out at random.
use crate::rng::Rng;
use crate::tree::*;

#[derive(Clone, Debug)]
pub struct Tok {
    pub text: String,
    /// A semicolon that semicolon insertion may supply
    pub semi: bool,
    /// The semicolon behind a do statement: can be left out anywhere
    pub do_semi: bool,
    /// No line break may stand in front of this token
    pub glued: bool,
    pub regex: bool,
    /// Continues a template: nothing may be inserted inside of the text
    pub number: bool,
}

fn t(text: &str) -> Tok {
    let c = text.chars().next().unwrap_or(' ');
    Tok {
        text: text.to_string(),
        semi: false,
        do_semi: false,
        glued: false,
        regex: false,
        number: c.is_ascii_digit() || (c == '.' && text.len() > 1 && text.as_bytes()[1].is_ascii_digit()),
    }
}

pub struct Printer<'r> {
    pub out: Vec<Tok>,
    /// Where redundant parentheses come from, if wanted
    pub parens: Option<&'r mut Rng>,
}

// Levels of the precedence table
const SEQ: u8 = 0;
const ASG: u8 = 1;
const COND: u8 = 3;
const EXP: u8 = 14;
const UNARY: u8 = 15;
const POST: u8 = 16;
const NEW: u8 = 17;
const CALL: u8 = 18;
const PRIMARY: u8 = 19;

fn level(e: &E) -> u8 {
    match e {
        E::Seq(_) => SEQ,
        E::Asg(..) | E::Arrow(..) => ASG,
        E::Cond(..) => COND,
        E::Bin(op, ..) => binop_level(op),
        E::Pre(..) => UNARY,
        E::Post(..) => POST,
        E::New(_, None) => NEW,
        E::Call(..) | E::Mem(..) | E::Idx(..) | E::Tag(..) | E::New(_, Some(_)) | E::NewTarget => CALL,
        E::Spread(_) => ASG,
        _ => PRIMARY,
    }
}

/// Whether the callee of `new` would lend its arguments to it
fn has_call(e: &E) -> bool {
    match e {
        E::Call(..) => true,
        E::Mem(o, _) => has_call(o),
        E::Idx(o, _) => has_call(o),
        E::Tag(o, ..) => has_call(o),
        _ => false,
    }
}

impl<'r> Printer<'r> {
    pub fn new(parens: Option<&'r mut Rng>) -> Self {
        Printer { out: Vec::new(), parens }
    }

    fn p(&mut self, s: &str) {
        self.out.push(t(s));
    }

    fn semi(&mut self) {
        let mut k = t(";");
        k.semi = true;
        self.out.push(k);
    }

    fn wrap(&mut self) -> bool {
        match self.parens {
            Some(ref mut r) => r.chance(1, 10),
            None => false,
        }
    }

    fn e(&mut self, e: &E, min: u8) {
        if let E::Spread(a) = e {
            self.p("...");
            return self.e(a, ASG);
        }
        if level(e) < min || self.wrap() {
            self.p("(");
            self.e(e, SEQ);
            self.p(")");
            return;
        }
        match e {
            E::Id(w) => self.p(w),
            E::This => self.p("this"),
            E::Lit(w) => self.p(w),
            E::Re(w) => {
                let mut k = t(w);
                k.regex = true;
                self.out.push(k);
            }
            E::Tpl(q, es) => self.tpl(q, es),
            E::Tag(tag, q, es) => {
                self.object(tag);
                self.tpl(q, es);
            }
            E::Arr(items) => {
                self.p("[");
                for (i, item) in items.iter().enumerate() {
                    if i > 0 {
                        self.p(",");
                    }
                    if let Some(e) = item {
                        self.e(e, ASG);
                    }
                }
                self.p("]");
            }
            E::Obj(ps) => self.props(ps),
            E::Fun(n, g, ps, b) => {
                self.p("function");
                self.fun(n.as_ref().map(|n| &n[..]), *g, ps, b);
            }
            E::Cls(n, x, ms) => {
                self.p("class");
                self.cls(n.as_ref().map(|n| &n[..]), x, ms);
            }
            E::Arrow(ps, b) => {
                if ps.len() == 1 && ps[0].1.is_none() && !self.wrap() {
                    self.p(&ps[0].0.clone());
                } else {
                    self.p("(");
                    for (i, (n, d)) in ps.iter().enumerate() {
                        if i > 0 {
                            self.p(",");
                        }
                        self.p(n);
                        if let Some(d) = d {
                            self.p("=");
                            self.e(d, ASG);
                        }
                    }
                    self.p(")");
                }
                let mut k = t("=>");
                k.glued = true;
                self.out.push(k);
                match b {
                    ABody::Expr(e) => self.guarded(e, ASG, &["{"]),
                    ABody::Block(b) => self.block(b),
                }
            }
            E::Seq(es) => {
                for (i, e) in es.iter().enumerate() {
                    if i > 0 {
                        self.p(",");
                    }
                    // A sequence within a sequence is in parentheses
                    self.e(e, ASG);
                }
            }
            E::Bin(op, l, r) => {
                let lv = binop_level(op);
                if lv == EXP {
                    self.e(l, POST);
                    self.p(op);
                    self.e(r, EXP);
                } else {
                    self.e(l, lv);
                    self.p(op);
                    self.e(r, lv + 1);
                }
            }
            E::Asg(op, l, r) => {
                self.e(l, NEW);
                self.p(op);
                self.e(r, ASG);
            }
            E::Cond(c, a, b) => {
                self.e(c, COND + 1);
                self.p("?");
                self.e(a, ASG);
                self.p(":");
                self.e(b, ASG);
            }
            E::Pre(op, e) => {
                self.p(op);
                self.e(e, UNARY);
            }
            E::Post(op, e) => {
                self.e(e, NEW);
                let mut k = t(op);
                k.glued = true;
                self.out.push(k);
            }
            E::New(c, args) => {
                self.p("new");
                if has_call(c) {
                    self.p("(");
                    self.e(c, SEQ);
                    self.p(")");
                } else if let (E::New(..), Some(_), None) = (&**c, args, &self.parens) {
                    self.p("(");
                    self.e(c, SEQ);
                    self.p(")");
                } else {
                    self.member(c);
                }
                if let Some(args) = args {
                    self.args(args);
                }
            }
            E::Call(c, args) => {
                self.object(c);
                self.args(args);
            }
            E::Mem(o, n) => {
                self.object(o);
                self.p(".");
                self.p(n);
            }
            E::Idx(o, i) => {
                self.object(o);
                self.p("[");
                self.e(i, SEQ);
                self.p("]");
            }
            E::NewTarget => {
                self.p("new");
                self.p(".");
                self.p("target");
            }
            E::Spread(_) => unreachable!(),
        }
    }

    /// The callee of `new`
    fn member(&mut self, e: &E) {
        match e {
            E::New(_, None) => {
                self.p("(");
                self.e(e, SEQ);
                self.p(")");
            }
            _ => self.object(e),
        }
    }

    /// The part in front of a member access or of arguments
    fn object(&mut self, e: &E) {
        // A dot behind digits would belong to the number
        if let E::Lit(w) = e {
            if w.chars().all(|c| c.is_ascii_digit()) {
                self.p("(");
                self.p(w);
                self.p(")");
                return;
            }
        }
        self.e(e, CALL);
    }

    fn args(&mut self, args: &[E]) {
        self.p("(");
        for (i, e) in args.iter().enumerate() {
            if i > 0 {
                self.p(",");
            }
            self.e(e, ASG);
        }
        self.p(")");
    }

    fn tpl(&mut self, q: &[String], es: &[E]) {
        if es.is_empty() {
            return self.p(&format!("`{}`", q[0]));
        }
        self.p(&format!("`{}${{", q[0]));
        for (i, e) in es.iter().enumerate() {
            self.e(e, SEQ);
            if i + 1 == es.len() {
                self.p(&format!("}}{}`", q[i + 1]));
            } else {
                self.p(&format!("}}{}${{", q[i + 1]));
            }
        }
    }

    fn key(&mut self, k: &Key) {
        match k {
            Key::Word(w) | Key::Bin(w) => self.p(w),
            Key::Comp(e) => {
                self.p("[");
                self.e(e, ASG);
                self.p("]");
            }
        }
    }

    fn props(&mut self, ps: &[Prop]) {
        self.p("{");
        for (i, p) in ps.iter().enumerate() {
            if i > 0 {
                self.p(",");
            }
            match p {
                Prop::Short(w) => self.p(w),
                Prop::KV(k, e) => {
                    self.key(k);
                    self.p(":");
                    self.e(e, ASG);
                }
                Prop::Method(k, ps, b) => {
                    self.key(k);
                    self.params(ps);
                    self.block(b);
                }
                Prop::Spread(e) => {
                    self.p("...");
                    self.e(e, ASG);
                }
            }
        }
        self.p("}");
    }

    fn params(&mut self, ps: &[Pat]) {
        self.p("(");
        for (i, p) in ps.iter().enumerate() {
            if i > 0 {
                self.p(",");
            }
            self.pat(p);
        }
        self.p(")");
    }

    fn pat(&mut self, p: &Pat) {
        match p {
            Pat::Void => {}
            Pat::Id(w) => self.p(w),
            Pat::Obj(ps) => {
                // No parentheses in a pattern
                let r = self.parens.take();
                self.props(ps);
                self.parens = r;
            }
            Pat::Arr(ps) => {
                self.p("[");
                for (i, p) in ps.iter().enumerate() {
                    if i > 0 {
                        self.p(",");
                    }
                    self.pat(p);
                }
                self.p("]");
            }
            Pat::Rest(w) => {
                self.p("...");
                self.p(w);
            }
            Pat::Def(p, e) => {
                self.pat(p);
                self.p("=");
                self.e(e, ASG);
            }
        }
    }

    fn fun(&mut self, n: Option<&str>, g: bool, ps: &[Pat], b: &[S]) {
        if g {
            self.p("*");
        }
        if let Some(n) = n {
            self.p(n);
        }
        self.params(ps);
        self.block(b);
    }

    fn cls(&mut self, n: Option<&str>, x: &Option<Box<E>>, ms: &[Member]) {
        if let Some(n) = n {
            self.p(n);
        }
        if let Some(x) = x {
            self.p("extends");
            // Only an expression that cannot swallow the body
            self.e(x, CALL);
        }
        self.p("{");
        for m in ms {
            match m {
                Member::Method(st, kind, k, ps, b) => {
                    if *st {
                        self.p("static");
                    }
                    if *kind == "get" || *kind == "set" {
                        self.p(kind);
                    }
                    self.key(k);
                    self.params(ps);
                    self.block(b);
                }
                Member::Field(st, k, e) => {
                    if *st {
                        self.p("static");
                    }
                    self.key(k);
                    self.p("=");
                    self.e(e, ASG);
                    self.semi();
                }
            }
        }
        self.p("}");
    }

    fn block(&mut self, b: &[S]) {
        self.p("{");
        for s in b {
            self.s(s);
        }
        self.p("}");
    }

    /// An expression that must not start with one of the tokens
    fn guarded(&mut self, e: &E, min: u8, starts: &[&str]) {
        let at = self.out.len();
        self.e(e, min);
        if starts.contains(&&self.out[at].text[..]) {
            self.out.insert(at, t("("));
            self.p(")");
        }
    }

    fn decls(&mut self, k: &str, ds: &[(Pat, Option<E>)], header: bool) {
        self.p(k);
        for (i, (p, e)) in ds.iter().enumerate() {
            if i > 0 {
                self.p(",");
            }
            self.pat(p);
            if let Some(e) = e {
                self.p("=");
                let at = self.out.len();
                self.e(e, ASG);
                if header && self.out[at..].iter().any(|t| t.text == "in") {
                    self.out.insert(at, t("("));
                    self.p(")");
                }
            }
        }
    }

    fn init(&mut self, i: &Init) {
        match i {
            Init::Decl(k, ds) => self.decls(k, ds, true),
            Init::Expr(e) => {
                let at = self.out.len();
                self.guarded(e, SEQ, &["let", "var", "const"]);
                if self.out[at..].iter().any(|t| t.text == "in") {
                    self.out.insert(at, t("("));
                    self.p(")");
                }
            }
        }
    }

    fn head(&mut self, word: &str, e: &E) {
        self.p(word);
        self.p("(");
        self.e(e, SEQ);
        self.p(")");
    }

    fn glued_word(&mut self, w: &str) {
        let mut k = t(w);
        k.glued = true;
        self.out.push(k);
    }

    fn s(&mut self, s: &S) {
        match s {
            S::Empty => self.p(";"),
            S::Debugger => {
                self.p("debugger");
                self.semi();
            }
            S::Expr(e) => {
                self.guarded(e, SEQ, &["{", "function", "class"]);
                self.semi();
            }
            S::Decl(k, ds) => {
                self.decls(k, ds, false);
                self.semi();
            }
            S::Return(e) => {
                self.p("return");
                if let Some(e) = e {
                    let at = self.out.len();
                    self.e(e, SEQ);
                    self.out[at].glued = true;
                }
                self.semi();
            }
            S::Break(l) => {
                self.p("break");
                if let Some(l) = l {
                    self.glued_word(l);
                }
                self.semi();
            }
            S::Continue(l) => {
                self.p("continue");
                if let Some(l) = l {
                    self.glued_word(l);
                }
                self.semi();
            }
            S::Throw(e) => {
                self.p("throw");
                let at = self.out.len();
                self.e(e, SEQ);
                self.out[at].glued = true;
                self.semi();
            }
            S::If(c, a, b) => {
                self.head("if", c);
                self.s(a);
                if let Some(b) = b {
                    self.p("else");
                    self.s(b);
                }
            }
            S::While(c, b) => {
                self.head("while", c);
                self.s(b);
            }
            S::Do(b, c) => {
                self.p("do");
                self.s(b);
                self.head("while", c);
                let mut k = t(";");
                k.do_semi = true;
                self.out.push(k);
            }
            S::For(i, c, u, b) => {
                self.p("for");
                self.p("(");
                if let Some(i) = i {
                    self.init(i);
                }
                self.p(";");
                if let Some(c) = c {
                    self.e(c, SEQ);
                }
                self.p(";");
                if let Some(u) = u {
                    self.e(u, SEQ);
                }
                self.p(")");
                self.s(b);
            }
            S::ForIn(i, e, b) | S::ForOf(i, e, b) => {
                self.p("for");
                self.p("(");
                self.init(i);
                let of = matches!(s, S::ForOf(..));
                self.p(if of { "of" } else { "in" });
                self.e(e, if of { ASG } else { SEQ });
                self.p(")");
                self.s(b);
            }
            S::Block(b) => self.block(b),
            S::Switch(e, cs) => {
                self.head("switch", e);
                self.p("{");
                for (t, b) in cs {
                    match t {
                        Some(e) => {
                            self.p("case");
                            self.e(e, SEQ);
                        }
                        None => self.p("default"),
                    }
                    self.p(":");
                    for s in b {
                        self.s(s);
                    }
                }
                self.p("}");
            }
            S::Try(b, c, f) => {
                self.p("try");
                self.block(b);
                if let Some((p, b)) = c {
                    self.p("catch");
                    self.p("(");
                    self.pat(p);
                    self.p(")");
                    self.block(b);
                }
                if let Some(b) = f {
                    self.p("finally");
                    self.block(b);
                }
            }
            S::Label(l, b) => {
                self.p(l);
                self.p(":");
                self.s(b);
            }
            S::Fun(n, g, ps, b) => {
                self.p("function");
                self.fun(Some(n), *g, ps, b);
            }
            S::Cls(n, x, ms) => {
                self.p("class");
                self.cls(Some(n), x, ms);
            }
            S::Import(specs, src) => {
                self.p("import");
                let mut names = false;
                for (i, s) in specs.iter().enumerate() {
                    if i > 0 {
                        self.p(",");
                    }
                    match s {
                        Spec::Default(l) => self.p(l),
                        Spec::Ns(l) => {
                            self.p("*");
                            self.p("as");
                            self.p(l);
                        }
                        Spec::Name(n, l) => {
                            if !names {
                                self.p("{");
                                names = true;
                            }
                            self.p(n);
                            if n != l {
                                self.p("as");
                                self.p(l);
                            }
                        }
                    }
                }
                if names {
                    self.p("}");
                }
                if !specs.is_empty() {
                    self.p("from");
                }
                if src.contains('\'') {
                    self.p(&format!("\"{}\"", src));
                } else {
                    self.p(&format!("'{}'", src));
                }
                self.semi();
            }
        }
    }
}

pub fn tokens(program: &[S], parens: Option<&mut Rng>) -> Vec<Tok> {
    let mut p = Printer::new(parens);
    for s in program {
        p.s(s);
    }
    p.out
}

pub fn ident_char(c: char) -> bool {
    c == '$' || c == '_' || c == '\\' || c.is_ascii_alphanumeric() || !c.is_ascii()
}

/// Whether the two tokens would run into each other if nothing was between
pub fn needs_gap(a: &Tok, b: &Tok) -> bool {
    let (x, y) = match (a.text.chars().last(), b.text.chars().next()) {
        (Some(x), Some(y)) => (x, y),
        _ => return false,
    };
    if ident_char(x) && ident_char(y) {
        return true;
    }
    if a.number && (y == '.' || ident_char(y)) {
        return true;
    }
    if a.regex && ident_char(y) {
        return true;
    }
    if a.text == "." && y.is_ascii_digit() {
        return true;
    }
    let punct = |c: char| "+-*/<>=&|!^%?~.".contains(c);
    let (pa, pb) = (punct(x) || a.regex, punct(y));
    pa && pb && !(a.text.starts_with(|c| c == '\'' || c == '"' || c == '`'))
}

/// Whether a statement starting with the token cannot be read as the
/// continuation of an expression
fn starts_fresh(t: &Tok) -> bool {
    if t.regex {
        return false;
    }
    match &t.text[..] {
        "++" | "--" | "!" | "~" | "{" | "}" => true,
        "in" | "instanceof" | "of" | "as" | "from" => false,
        s => {
            let c = s.chars().next().unwrap();
            ident_char(c) || c == '\'' || c == '"' || (t.number && c != '.')
        }
    }
}

/// The tokens with one blank between them, and every semicolon in place
pub fn plain(toks: &[Tok]) -> String {
    let mut o = String::new();
    for (i, k) in toks.iter().enumerate() {
        if i > 0 {
            o.push(' ');
        }
        o.push_str(&k.text);
    }
    o
}

fn gap(r: &mut Rng, newline: bool, must: bool, after_regex: bool) -> (String, bool) {
    let mut s = String::new();
    let mut broke = false;
    let n = if must { 1 + r.below(2) } else { r.below(3) };
    let mut n = n;
    while n > 0 {
        n -= 1;
        match r.below(12) {
            0..=4 => s.push(' '),
            5 => s.push('\t'),
            6 => {
                // Behind a slash, a comment would not start where it should
                if after_regex && s.is_empty() {
                    s.push(' ');
                }
                s.push_str(*r.pick(&["/**/", "/* a */", "/***/", "/* } ' */", "/*//*/", "/* é **/"]));
            }
            7 if newline => {
                if after_regex && s.is_empty() {
                    s.push(' ');
                }
                s.push_str(*r.pick(&["//\n", "// x { '\n", "///* \n", "//é\n"]));
                broke = true;
            }
            8 if newline => {
                if after_regex && s.is_empty() {
                    s.push(' ');
                }
                s.push_str(*r.pick(&["/*\n*/", "/* a\n b */", "/*\n**/"]));
                broke = true;
            }
            9 if newline => {
                s.push_str("\r\n");
                broke = true;
            }
            _ if newline => {
                s.push('\n');
                broke = true;
            }
            _ => s.push(' '),
        }
    }
    (s, broke)
}

/// Lay the tokens out: random blanks and comments, and semicolons left out
/// where semicolon insertion supplies them
pub fn layout(toks: &[Tok], r: &mut Rng) -> String {
    let mut o = String::new();
    let mut prev: Option<&Tok> = None;
    let mut i = 0;
    while i < toks.len() {
        let k = &toks[i];
        let next = toks.get(i + 1);
        let mut force_break = false;
        if (k.semi || k.do_semi) && r.chance(1, 2) {
            let free = k.do_semi && next.map_or(true, |n| n.text != ";");
            let closes = next.map_or(true, |n| n.text == "}");
            let breaks = next.map_or(false, |n| !n.glued && starts_fresh(n));
            // A word before `while` of a do statement, or `else`: fine
            if free || closes || (breaks && k.semi) {
                if free || closes {
                    i += 1;
                    continue;
                }
                force_break = true;
            }
        }
        if force_break {
            // Put a line break between the statement and its successor
            let n = next.unwrap();
            let mut s = String::new();
            let p = prev.unwrap();
            let guard = p.regex || p.text.ends_with('/');
            loop {
                let (g, broke) = gap(r, true, true, guard && s.is_empty());
                s.push_str(&g);
                if broke {
                    break;
                }
            }
            o.push_str(&s);
            if n.text.starts_with('/') {
                o.push(' ');
            }
            o.push_str(&n.text);
            prev = Some(n);
            i += 2;
            continue;
        }
        if let Some(p) = prev {
            let must = needs_gap(p, k);
            let (mut g, _) = gap(r, !k.glued, must, p.regex || p.text.ends_with('/'));
            if must && g.is_empty() {
                g.push(' ');
            }
            if g.ends_with('/') && false {
                g.push(' ');
            }
            o.push_str(&g);
        } else {
            let (g, _) = gap(r, true, false, false);
            o.push_str(&g);
        }
        o.push_str(&k.text);
        prev = Some(k);
        i += 1;
    }
    let guard = prev.map_or(false, |p| p.regex || p.text.ends_with('/'));
    let (g, _) = gap(r, true, false, guard);
    o.push_str(&g);
    o
}
