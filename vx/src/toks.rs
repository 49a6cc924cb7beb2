//! Token level rewriting and printing.
use proc_macro2::{Delimiter, Group, Spacing, TokenStream, TokenTree};
use std::collections::HashMap;

pub type Binds = HashMap<String, Vec<TokenTree>>;

pub fn tv(ts: TokenStream) -> Vec<TokenTree> {
    ts.into_iter().collect()
}

fn same(a: &TokenTree, b: &TokenTree) -> bool {
    match (a, b) {
        (TokenTree::Ident(a), TokenTree::Ident(b)) => a == b || a == "zz", // 'zz: any lifetime
        (TokenTree::Punct(a), TokenTree::Punct(b)) => a.as_char() == b.as_char(),
        (TokenTree::Literal(a), TokenTree::Literal(b)) => a.to_string() == b.to_string(),
        _ => false,
    }
}

/// Is the pattern position a metavariable `$name`? Then returns its name.
fn meta(p: &[TokenTree]) -> Option<String> {
    if p.len() >= 2 {
        if let (TokenTree::Punct(d), TokenTree::Ident(n)) = (&p[0], &p[1]) {
            if d.as_char() == '$' {
                return Some(n.to_string());
            }
        }
    }
    None
}

/// Match `pat` against a prefix of `toks` (`full`: against all of it).
/// `$x` binds the shortest non-empty run of token trees, `$x__` may be empty,
/// `$I_x` binds one identifier.
fn match_seq(pat: &[TokenTree], toks: &[TokenTree], full: bool, b: &mut Binds) -> Option<usize> {
    if pat.is_empty() {
        return if full && !toks.is_empty() { None } else { Some(0) };
    }
    if let Some(name) = meta(pat) {
        let rest = &pat[2..];
        let min = if name.ends_with("__") { 0 } else { 1 };
        let max = if name.starts_with("I_") || name.starts_with("T_") { 1 } else { toks.len() };
        for n in min..=max.min(toks.len()) {
            let run = &toks[..n];
            if name.starts_with("I_") && !matches!(run[0], TokenTree::Ident(_)) {
                return None;
            }
            if !full && run.iter().any(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == ';')) {
                return None;
            }
            let mut b2 = b.clone();
            if let Some(prev) = b2.get(&name) {
                if prev.len() != n || !prev.iter().zip(run).all(|(x, y)| x.to_string() == y.to_string()) {
                    continue;
                }
            }
            b2.insert(name.clone(), run.to_vec());
            if let Some(m) = match_seq(rest, &toks[n..], full, &mut b2) {
                *b = b2;
                return Some(n + m);
            }
        }
        return None;
    }
    if toks.is_empty() {
        return None;
    }
    match (&pat[0], &toks[0]) {
        (TokenTree::Group(g), TokenTree::Group(h)) => {
            if g.delimiter() != h.delimiter() {
                return None;
            }
            let gp = tv(g.stream());
            let ht = tv(h.stream());
            let mut b2 = b.clone();
            match_seq(&gp, &ht, true, &mut b2)?;
            let m = match_seq(&pat[1..], &toks[1..], full, &mut b2)?;
            *b = b2;
            Some(1 + m)
        }
        (p, t) if same(p, t) => {
            let m = match_seq(&pat[1..], &toks[1..], full, b)?;
            Some(1 + m)
        }
        _ => None,
    }
}

fn subst(rep: &[TokenTree], b: &Binds) -> Vec<TokenTree> {
    let mut out = vec![];
    let mut i = 0;
    while i < rep.len() {
        if let Some(n) = meta(&rep[i..]) {
            if let Some(v) = b.get(&n) {
                out.extend(v.iter().cloned());
                i += 2;
                continue;
            }
        }
        match &rep[i] {
            TokenTree::Group(g) => {
                let inner = subst(&tv(g.stream()), b);
                out.push(TokenTree::Group(Group::new(g.delimiter(), inner.into_iter().collect())));
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out
}

pub struct Rule {
    pub pat: Vec<TokenTree>,
    pub rep: Vec<TokenTree>,
    pub text: String,
    pub used: std::cell::Cell<usize>,
}

/// `f.write_fmt(format_args!("text {0:1$}", a, b))` writes its pieces one by one:
/// `{ f.vx_byte(..); ...; f.vx_arg(&(a), b); f.vx_done() }`
fn format_call(t: &[TokenTree]) -> Option<Vec<TokenTree>> {
    let (f, g) = match t {
        [TokenTree::Ident(f), TokenTree::Punct(d), TokenTree::Ident(w), TokenTree::Group(g)] if d.as_char() == '.' && w == "write_fmt" => (f, g),
        _ => return None,
    };
    let inner = tv(g.stream());
    let args = match &inner[..] {
        [TokenTree::Ident(a), TokenTree::Punct(b), TokenTree::Group(g)] if a == "format_args" && b.as_char() == '!' => tv(g.stream()),
        _ => return None,
    };
    let mut split: Vec<Vec<TokenTree>> = vec![vec![]];
    for t in args {
        match &t {
            TokenTree::Punct(p) if p.as_char() == ',' => split.push(vec![]),
            _ => split.last_mut().unwrap().push(t),
        }
    }
    let lit: String = match &split[0][..] {
        [TokenTree::Literal(l)] => syn::parse_str::<syn::LitStr>(&l.to_string()).ok()?.value(),
        _ => return None,
    };
    let arg = |n: &str| -> Option<TokenStream> { split.get(1 + n.parse::<usize>().ok()?).map(|v| v.iter().cloned().collect()) };
    let mut out = TokenStream::new();
    let b = lit.as_bytes();
    let mut i = 0;
    let mut next = 0;
    while i < b.len() {
        let c = b[i];
        if (c == b'{' || c == b'}') && b.get(i + 1) == Some(&c) {
            out.extend(quote::quote!(#f . vx_byte(#c) ;));
            i += 2;
        } else if c == b'{' {
            let j = i + lit[i..].find('}')?;
            let (n, w) = match lit[i + 1..j].split_once(':') {
                Some((n, w)) => (n.to_string(), w.trim_start_matches('>').to_string()),
                None => (lit[i + 1..j].to_string(), String::new()),
            };
            let n = if n.is_empty() { next += 1; (next - 1).to_string() } else { n };
            let a = arg(&n)?;
            let w: TokenStream = if w.is_empty() {
                quote::quote!(0usize)
            } else if let Some(k) = w.strip_suffix('$') {
                arg(k)?
            } else {
                let k: usize = w.parse().ok()?;
                quote::quote!(#k)
            };
            out.extend(quote::quote!(#f . vx_arg(&(#a), #w) ;));
            i = j + 1;
        } else {
            out.extend(quote::quote!(#f . vx_byte(#c) ;));
            i += 1;
        }
    }
    Some(tv(quote::quote!({ #out #f . vx_done() })))
}

pub fn rewrite(ts: TokenStream, rules: &[Rule]) -> TokenStream {
    let mut toks: Vec<TokenTree> = ts
        .into_iter()
        .map(|t| match t {
            TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), rewrite(g.stream(), rules))),
            t => t,
        })
        .collect();
    let mut i = 0;
    while i + 4 <= toks.len() {
        if let Some(t) = format_call(&toks[i..i + 4]) {
            toks.splice(i..i + 4, t);
        }
        i += 1;
    }
    // a rule whose replacement holds its own pattern is not applied to what it produced
    let looping: Vec<bool> = rules
        .iter()
        .map(|r| (0..r.rep.len()).any(|i| match_seq(&r.pat, &r.rep[i..], false, &mut Binds::new()).map_or(false, |n| n > 0)))
        .collect();
    let mut made: Vec<Vec<usize>> = vec![vec![]; toks.len()];
    let mut fuel = 10000;
    'again: loop {
        fuel -= 1;
        if fuel == 0 {
            break;
        }
        for i in 0..toks.len() {
            for (k, r) in rules.iter().enumerate() {
                let mut b = Binds::new();
                if let Some(n) = match_seq(&r.pat, &toks[i..], false, &mut b) {
                    if n == 0 || made[i].contains(&k) {
                        continue;
                    }
                    let new = subst(&r.rep, &b);
                    let old: Vec<String> = toks[i..i + n].iter().map(|t| t.to_string()).collect();
                    let newt: Vec<String> = new.iter().map(|t| t.to_string()).collect();
                    if old == newt {
                        continue;
                    }
                    r.used.set(r.used.get() + 1);
                    let mark = if looping[k] { vec![k] } else { vec![] };
                    made.splice(i..i + n, std::iter::repeat(mark).take(new.len()));
                    toks.splice(i..i + n, new);
                    continue 'again;
                }
            }
        }
        break;
    }
    toks.into_iter().collect()
}

/// Print tokens, one statement per line; `__vx_raw_N` is replaced by raw text N on lines of its own.
pub struct Printer<'a> {
    pub out: String,
    pub raws: &'a [Raw],
    pub marks: Vec<(usize, usize, usize, usize)>, // (raw, part, first line, last line)
    line_open: bool,
    glue: bool,
    depth: usize,
}

/// Raw text: parts, each of which is printed on lines of its own.
#[derive(Clone, Debug, Default)]
pub struct Raw {
    pub parts: Vec<String>,
}

impl<'a> Printer<'a> {
    pub fn new(raws: &'a [Raw]) -> Self {
        Printer { out: String::new(), raws, marks: vec![], line_open: false, glue: false, depth: 0 }
    }
    pub fn line(&self) -> usize {
        self.out.matches('\n').count() + 1
    }
    fn nl(&mut self) {
        if self.line_open {
            self.out.push('\n');
            self.line_open = false;
        }
        self.glue = false;
    }
    fn word(&mut self, s: &str) {
        if !self.line_open {
            for _ in 0..self.depth.min(12) {
                self.out.push_str("  ");
            }
        } else if !self.glue {
            self.out.push(' ');
        }
        self.out.push_str(s);
        self.line_open = true;
        self.glue = false;
    }
    pub fn print(&mut self, ts: TokenStream) {
        let mut ts = ts.into_iter();
        while let Some(t) = ts.next() {
            match t {
                // `vx_plain!(..)` stands for its argument, in syntax of Verus
                TokenTree::Ident(ref i) if i == "vx_plain" => {
                    ts.next();
                    if let Some(TokenTree::Group(g)) = ts.next() {
                        self.print(g.stream());
                    }
                }
                TokenTree::Ident(i) => {
                    let s = i.to_string();
                    if let Some(n) = s.strip_prefix("__vx_raw_") {
                        let n: usize = n.parse().unwrap();
                        self.nl();
                        let mut cur = self.line();
                        let raws = self.raws;
                        for (k, p) in raws[n].parts.iter().enumerate() {
                            self.out.push_str(p);
                            self.out.push('\n');
                            let next = cur + p.matches('\n').count() + 1;
                            self.marks.push((n, k, cur, next - 1));
                            cur = next;
                        }
                    } else {
                        self.word(&s)
                    }
                }
                TokenTree::Literal(l) => self.word(&l.to_string()),
                TokenTree::Punct(p) => {
                    self.word(&p.as_char().to_string());
                    if p.spacing() == Spacing::Joint || p.as_char() == '\'' {
                        self.glue = true;
                    }
                    if p.as_char() == ';' {
                        self.nl();
                    }
                }
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    let brace = g.delimiter() == Delimiter::Brace;
                    if g.delimiter() == Delimiter::None {
                        self.print(g.stream());
                        continue;
                    }
                    self.word(o);
                    if brace {
                        self.nl();
                        self.depth += 1;
                    }
                    self.print(g.stream());
                    if brace {
                        self.depth -= 1;
                        self.nl();
                        self.word(c);
                        // keep `} else`, `}.x` valid either way: a line break is blank space
                        self.nl();
                    } else {
                        self.word(c);
                    }
                }
            }
        }
    }
}
