use crate::spec::*;
use crate::toks::*;
use proc_macro2::{Ident, Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::Path;
use std::str::FromStr;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub fn norm(ts: impl ToTokens) -> String {
    ts.to_token_stream().to_string().split_whitespace().collect::<Vec<_>>().join("")
}

/// Type as a key: no blanks, no lifetimes.
pub fn tkey(t: &Type) -> String {
    fn go(ts: TokenStream, out: &mut String) {
        let v = tv(ts);
        let mut i = 0;
        while i < v.len() {
            match &v[i] {
                TokenTree::Punct(p) if p.as_char() == '\'' => {
                    i += 2; // lifetime
                    if let Some(TokenTree::Punct(p)) = v.get(i) {
                        if p.as_char() == ',' {
                            i += 1;
                        }
                    }
                    continue;
                }
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                        proc_macro2::Delimiter::Bracket => ("[", "]"),
                        proc_macro2::Delimiter::Brace => ("{", "}"),
                        _ => ("", ""),
                    };
                    out.push_str(o);
                    go(g.stream(), out);
                    out.push_str(c);
                }
                t => out.push_str(&t.to_string()),
            }
            i += 1;
        }
    }
    let mut s = String::new();
    go(t.to_token_stream(), &mut s);
    s.replace("<>", "")
}

/// Names of the 2015 edition that are keywords today
fn no_keywords(t: TokenStream) -> TokenStream {
    t.into_iter()
        .map(|t| match t {
            TokenTree::Group(g) => TokenTree::Group(proc_macro2::Group::new(g.delimiter(), no_keywords(g.stream()))),
            TokenTree::Ident(i) if i == "try" || i == "async" || i == "await" || i == "gen" => TokenTree::Ident(format_ident!("{}_", i)),
            t => t,
        })
        .collect()
}

pub struct Taken {
    pub crate_: String,
    pub module: String,
    pub item: Item,
}

fn attr_is(attrs: &[Attribute], name: &str) -> bool {
    attrs.iter().any(|a| a.path().is_ident(name))
}

fn has_glob(t: &UseTree) -> bool {
    match t {
        UseTree::Glob(_) => true,
        UseTree::Path(p) => has_glob(&p.tree),
        UseTree::Group(g) => g.items.iter().any(has_glob),
        _ => false,
    }
}

/// The glob imports of a module, repeated in the bodies of its functions.
struct Globs(Vec<ItemUse>);
impl VisitMut for Globs {
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        self.add(&mut f.block)
    }
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        self.add(&mut f.block)
    }
    fn visit_trait_item_fn_mut(&mut self, f: &mut TraitItemFn) {
        if let Some(b) = &mut f.default {
            self.add(b)
        }
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        if let Expr::Block(b) = &mut *c.body {
            self.add(&mut b.block)
        }
    }
    fn visit_item_mod_mut(&mut self, _: &mut ItemMod) {}
}
impl Globs {
    fn add(&self, b: &mut Block_) {
        let old = std::mem::take(&mut b.stmts);
        b.stmts = self.0.iter().cloned().map(|u| Stmt::Item(Item::Use(u))).chain(old).collect();
    }
}

/// `use super::*`: the imports of the enclosing module are in scope as well
fn is_super(t: &UseTree) -> bool {
    matches!(t, UseTree::Path(p) if p.ident == "super" && matches!(&*p.tree, UseTree::Glob(_)))
}

fn collect(items: Vec<Item>, module: &str, outer: &[ItemUse], out: &mut Vec<Taken>, uses: &mut Vec<(String, ItemUse)>) {
    for i in &items {
        if let Item::Use(u) = i {
            uses.push((module.to_string(), u.clone()))
        }
    }
    let mut globs = Globs(items.iter().filter_map(|i| match i {
        Item::Use(u) if has_glob(&u.tree) => Some(u.clone()),
        _ => None,
    }).collect());
    if globs.0.iter().any(|u| is_super(&u.tree)) {
        globs.0.extend(outer.iter().cloned())
    }
    for mut it in items {
        if !globs.0.is_empty() {
            globs.visit_item_mut(&mut it);
        }
        match it {
            Item::Mod(m) => {
                let path = if module.is_empty() { m.ident.to_string() } else { format!("{}::{}", module, m.ident) };
                if let Some((_, items)) = m.content {
                    collect(items, &path, &globs.0, out, uses)
                }
            }
            Item::Use(_) | Item::Macro(_) | Item::ExternCrate(_) => {}
            Item::Impl(ref i) if attr_is(&i.attrs, "automatically_derived") => {}
            it => out.push(Taken { crate_: String::new(), module: module.to_string(), item: it }),
        }
    }
}

pub fn item_name(it: &Item) -> String {
    match it {
        Item::Enum(x) => x.ident.to_string(),
        Item::Struct(x) => x.ident.to_string(),
        Item::Const(x) => x.ident.to_string(),
        Item::Static(x) => x.ident.to_string(),
        Item::Type(x) => x.ident.to_string(),
        Item::Fn(x) => x.sig.ident.to_string(),
        Item::Trait(x) => x.ident.to_string(),
        Item::Impl(x) => match &x.trait_ {
            Some((_, p, _)) => format!("{}@{}", tkey(&Type::Path(TypePath { qself: None, path: p.clone() })), tkey(&x.self_ty)),
            None => tkey(&x.self_ty).split('<').next().unwrap().to_string(),
        },
        _ => String::new(),
    }
}

/// `A` taken by the pattern `P`: equal, or below `P::`, or P ends in `*` and is a prefix.
fn covers(p: &str, full: &str) -> bool {
    if let Some(q) = p.strip_suffix('*') {
        return full.starts_with(q);
    }
    full == p || full.starts_with(&format!("{}::", p))
}

pub struct Ctx<'u> {
    pub u: &'u Unit,
    pub modules: BTreeSet<String>,
    pub aliases: BTreeMap<String, (bool, TypeBareFn)>, // handler aliases: name -> (optional, fn type)
    pub tables: BTreeMap<String, Vec<Expr>>,
    pub consts: BTreeMap<String, Expr>,
    pub raws: RefCell<Vec<Raw>>,
    pub meta: RefCell<Vec<Value>>, // per raw part
    pub raw_meta: RefCell<HashMap<(usize, usize), Value>>,
    pub fns: BTreeSet<String>,
    pub handlers: BTreeMap<String, Vec<String>>, // alias -> handler names
    pub none_handlers: BTreeMap<String, String>, // const None: name -> alias
    pub variants: BTreeMap<String, Vec<String>>,
    pub structs: BTreeSet<String>,
    pub seen: RefCell<BTreeMap<String, Value>>, // functions rendered
    pub notes: RefCell<Vec<String>>,
    pub oob: RefCell<bool>,
    pub mods: RefCell<usize>,
}

impl<'u> Ctx<'u> {
    pub fn raw(&self, parts: Vec<(String, Value)>) -> Ident {
        let n = self.raws.borrow().len();
        let mut r = Raw::default();
        for (k, (t, v)) in parts.into_iter().enumerate() {
            r.parts.push(t);
            self.raw_meta.borrow_mut().insert((n, k), v);
        }
        self.raws.borrow_mut().push(r);
        format_ident!("__vx_raw_{}", n)
    }
    pub fn note(&self, s: String) {
        let mut n = self.notes.borrow_mut();
        if !n.contains(&s) {
            n.push(s)
        }
    }
}

fn params(sig: &Signature) -> Vec<String> {
    sig.inputs
        .iter()
        .map(|a| match a {
            FnArg::Receiver(_) => "self".to_string(),
            FnArg::Typed(t) => match &*t.pat {
                Pat::Ident(i) => i.ident.to_string(),
                _ => "_".into(),
            },
        })
        .collect()
}

fn fill(text: &str, params: &[String], h: &str, selfty: &str) -> String {
    let mut t = text.replace("#h", h).replace("$Self", selfty);
    for (i, p) in params.iter().enumerate() {
        t = t.replace(&format!("${}", i), p);
    }
    t
}

fn clauses(b: &SBlock, fun: &str, place: &str, deflabels: &[String], ps: &[String], h: &str, selfty: &str) -> Vec<(String, Value)> {
    let mut out = vec![];
    let order: &[&[&str]] = &[&["requires"], &["invariant_except_break", "invariant"], &["ensures"], &["decreases"], &["no_unwind"]];
    for grp in order {
        let mut last = "";
        for kw in grp.iter() {
            for c in b.clauses.iter().filter(|c| c.kw == *kw) {
                let head = if last != *kw { format!("    {}\n", kw) } else { String::new() };
                last = kw;
                let labels = if c.labels.is_empty() { deflabels.to_vec() } else { c.labels.clone() };
                let text = format!("{}        {},", head, fill(&c.text, ps, h, selfty));
                out.push((
                    text,
                    json!({"fn": fun, "place": place, "kind": kw, "labels": labels,
                           "own_label": !c.labels.is_empty(), "text": c.text.trim()}),
                ));
            }
        }
    }
    out
}

/// Body normalisation.
struct Norm<'a, 'u> {
    cx: &'a Ctx<'u>,
    local_tables: Vec<(String, Vec<Expr>)>,
    local_consts: Vec<(String, Expr)>,
    globs: Vec<String>, // enums whose variants are in scope by `use self::E::*`
}

fn glob_enum(cx: &Ctx, t: &UseTree, last: Option<String>) -> Option<String> {
    match t {
        UseTree::Path(p) => glob_enum(cx, &p.tree, Some(p.ident.to_string())),
        UseTree::Glob(_) => last.filter(|n| cx.variants.contains_key(n)),
        _ => None,
    }
}

fn lit_of(cx: &Norm, e: &Expr) -> Expr {
    if let Expr::Path(p) = e {
        if let Some(i) = p.path.get_ident() {
            let n = i.to_string();
            if let Some((_, v)) = cx.local_consts.iter().rev().find(|(k, _)| *k == n) {
                return v.clone();
            }
            if let Some(a) = cx.cx.none_handlers.get(&n) {
                let _ = a;
                return parse_quote!(None);
            }
            for (a, hs) in &cx.cx.handlers {
                if hs.contains(&n) {
                    let opt = cx.cx.aliases[a].0;
                    let e = format_ident!("VxH_{}", a);
                    let i = format_ident!("{}", n);
                    return if opt { parse_quote!(Some(#e::#i)) } else { parse_quote!(#e::#i) };
                }
            }
            if let Some(v) = cx.cx.consts.get(&n) {
                return v.clone();
            }
        }
    }
    e.clone()
}

impl<'a, 'u> Norm<'a, 'u> {
    /// The name of a structure and not of a variant
    fn unglob_struct(&self, p: &mut Path_) {
        if p.segments.len() == 1 && !self.cx.structs.contains(&p.segments[0].ident.to_string()) {
            self.unglob(p)
        }
    }
    fn unglob(&self, p: &mut Path_) {
        if p.segments.len() != 1 {
            return;
        }
        let n = p.segments[0].ident.to_string();
        if let Some(e) = self.globs.iter().rev().find(|e| self.cx.variants[*e].contains(&n)) {
            let (e, v) = (format_ident!("{}", e), p.segments[0].ident.clone());
            *p = parse_quote!(#e::#v);
        }
    }
    fn table(&self, name: &str) -> Option<Vec<Expr>> {
        if let Some((_, t)) = self.local_tables.iter().rev().find(|(k, _)| k == name) {
            return Some(t.clone());
        }
        self.cx.tables.get(name).cloned()
    }

    fn lookup(&self, name: &str, t: &[Expr], idx: &Expr) -> Expr {
        let vals: Vec<(String, Expr)> = t
            .iter()
            .map(|e| {
                let v = lit_of(self, e);
                (norm(&v), v)
            })
            .collect();
        // an enum as the index?
        if let Some(spec) = self.cx.u.opts.get(&format!("table {}", name)).or_else(|| self.cx.u.opts.get("table *")) {
            if let Some(vs) = self.cx.variants.get(spec.as_str()) {
                let base = match idx {
                    Expr::Cast(c) => (*c.expr).clone(),
                    e => e.clone(),
                };
                let en = format_ident!("{}", spec);
                let mut groups: Vec<(String, Expr, Vec<Ident>)> = vec![];
                for (i, v) in vs.iter().enumerate() {
                    let vi = format_ident!("{}", v);
                    match vals.get(i) {
                        Some((k, e)) => match groups.iter_mut().find(|g| g.0 == *k) {
                            Some(g) => g.2.push(vi),
                            None => groups.push((k.clone(), e.clone(), vec![vi])),
                        },
                        None => {}
                    }
                }
                let complete = vals.len() >= vs.len();
                let arms = groups.iter().map(|(_, e, vs)| quote!( #( #en::#vs )|* => #e, ));
                let rest = if complete {
                    quote!()
                } else {
                    *self.cx.oob.borrow_mut() = true;
                    quote!(_ => vx_oob(),)
                };
                return Expr::Verbatim(quote!( (match #base { #(#arms)* #rest }) ));
            }
        }
        // run length
        let mut groups: Vec<(String, Expr, Vec<(usize, usize)>)> = vec![];
        for (i, (k, e)) in vals.iter().enumerate() {
            match groups.iter_mut().find(|g| g.0 == *k) {
                Some(g) => {
                    let l = g.2.len();
                    if g.2[l - 1].1 + 1 == i {
                        g.2[l - 1].1 = i
                    } else {
                        g.2.push((i, i))
                    }
                }
                None => groups.push((k.clone(), e.clone(), vec![(i, i)])),
            }
        }
        let arms = groups.iter().map(|(_, e, rs)| {
            let pats = rs.iter().map(|(a, b)| {
                let a = LitInt::new(&format!("{}usize", a), Span::call_site());
                let b = LitInt::new(&format!("{}usize", b), Span::call_site());
                if a == b {
                    quote!(#a)
                } else {
                    quote!(#a ..= #b)
                }
            });
            quote!( #( #pats )|* => #e, )
        });
        *self.cx.oob.borrow_mut() = true;
        Expr::Verbatim(quote!( (match #idx { #(#arms)* _ => vx_oob(), }) ))
    }
}

fn strip_path(p: &mut Path_, cx: &Ctx) {
    while p.segments.len() > 1 {
        let first = p.segments[0].ident.to_string();
        let is_mod = first == "self" || first == "super" || first == "crate" || cx.modules.contains(&first)
            || ["str", "ast", "lexer", "error", "std", "core", "toolshed", "parser", "module", "mem", "fmt", "ratel", "ratel_visitor"].contains(&first.as_str());
        if !is_mod {
            break;
        }
        let segs: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect();
        p.segments = segs.into_iter().collect();
        p.leading_colon = None;
    }
}
type Path_ = syn::Path;

impl<'a, 'u> VisitMut for Norm<'a, 'u> {
    fn visit_path_mut(&mut self, p: &mut Path_) {
        strip_path(p, self.cx);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear()
    }
    fn visit_block_mut(&mut self, b: &mut Block_) {
        let (nt, nc, ng) = (self.local_tables.len(), self.local_consts.len(), self.globs.len());
        let mut keep = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Item(Item::Const(c)) => match &*c.expr {
                    Expr::Array(a) => self.local_tables.push((c.ident.to_string(), a.elems.iter().cloned().collect())),
                    e => self.local_consts.push((c.ident.to_string(), e.clone())),
                },
                Stmt::Item(Item::Static(c)) => {
                    if let Expr::Array(a) = &*c.expr {
                        self.local_tables.push((c.ident.to_string(), a.elems.iter().cloned().collect()))
                    }
                }
                Stmt::Item(Item::Use(u)) => {
                    if let Some(e) = glob_enum(self.cx, &u.tree, None) {
                        self.globs.push(e)
                    }
                }
                Stmt::Item(Item::Macro(_)) => {}
                s => keep.push(s),
            }
        }
        b.stmts = keep;
        visit_mut::visit_block_mut(self, b);
        self.local_tables.truncate(nt);
        self.local_consts.truncate(nc);
        self.globs.truncate(ng);
        reroll(b);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Ident(i) = p {
            if i.by_ref.is_none() && i.subpat.is_none() && i.mutability.is_none() {
                if let Some(e) = self.globs.iter().rev().find(|e| self.cx.variants[*e].contains(&i.ident.to_string())) {
                    let (e, v) = (format_ident!("{}", e), &i.ident);
                    *p = Pat::Path(parse_quote!(#e::#v));
                }
            }
        }
        match p {
            Pat::TupleStruct(t) => self.unglob(&mut t.path),
            Pat::Struct(t) => self.unglob_struct(&mut t.path),
            Pat::Path(t) => self.unglob(&mut t.path),
            _ => {}
        }
        visit_mut::visit_pat_mut(self, p)
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Path(p) => self.unglob(&mut p.path),
            Expr::Struct(p) => self.unglob_struct(&mut p.path),
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Unsafe(u) => {
                let b = u.block.clone();
                let tail: Option<Expr> = match b.stmts.as_slice() {
                    [Stmt::Expr(x, None)] => Some(x.clone()),
                    _ => None,
                };
                *e = match tail {
                    Some(x) => Expr::Paren(ExprParen { attrs: vec![], paren_token: Default::default(), expr: Box::new(x) }),
                    None => Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }),
                };
            }
            Expr::Index(ix) => {
                if let Expr::Path(p) = &*ix.expr {
                    if let Some(last) = p.path.segments.last() {
                        let n = last.ident.to_string();
                        if let Some(t) = self.table(&n) {
                            *e = self.lookup(&n, &t, &ix.index);
                        }
                    }
                }
            }
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    let n = i.to_string();
                    if let Some((_, v)) = self.local_consts.iter().rev().find(|(k, _)| *k == n) {
                        *e = v.clone();
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if let Some(i) = p.path.get_ident() {
                        let n = i.to_string();
                        let lower = n.chars().next().map_or(false, |c| c.is_lowercase());
                        if lower && !self.cx.fns.contains(&n) && !self.cx.handlers.values().any(|h| h.contains(&n)) && !self.cx.aliases.is_empty() && !n.starts_with("vx_") {
                            let alias = match self.cx.u.opts.get(&format!("local {}", n)) {
                                Some(a) => Some(a.clone()),
                                None if self.cx.aliases.len() == 1 => self.cx.aliases.keys().next().cloned(),
                                None if self.cx.handlers.len() == 1 => self.cx.handlers.keys().next().cloned(),
                                None => None,
                            };
                            if let Some(a) = alias {
                                let f = format_ident!("vx_call_{}", a);
                                let args = &c.args;
                                *e = parse_quote!(#f(#i, #args));
                            }
                        }
                    }
                }
            }
            Expr::MethodCall(_) => {}
            _ => {}
        }
    }
}
type Block_ = syn::Block;

/// `X; X; X; loop { X; X; X }` is `loop { X }`.
fn reroll(b: &mut Block_) {
    // the copies precede the loop, which is the last statement
    let n = b.stmts.len();
    for li in 0..n {
        let Stmt::Expr(Expr::Loop(l), semi) = &b.stmts[li] else { continue };
        let body = &l.body.stmts;
        let k = body.len();
        if k < 2 || li < k {
            continue;
        }
        let s0 = norm(&body[0]).trim_end_matches(';').to_string();
        if s0.is_empty() || !body.iter().all(|s| norm(s).trim_end_matches(';') == s0) {
            continue;
        }
        if !b.stmts[li - k..li].iter().all(|s| norm(s).trim_end_matches(';') == s0) {
            continue;
        }
        let mut l2 = l.clone();
        let one = body[0].clone();
        l2.body.stmts = match one {
            Stmt::Expr(Expr::Block(eb), _) if eb.label.is_none() => eb.block.stmts,
            s => vec![s],
        };
        let semi = *semi;
        let mut stmts: Vec<Stmt> = b.stmts[..li - k].to_vec();
        stmts.push(Stmt::Expr(Expr::Loop(l2), semi));
        stmts.extend(b.stmts[li + 1..].iter().cloned());
        b.stmts = stmts;
        return;
    }
}

/// Replaces a type parameter.
struct Subst {
    var: String,
    ty: Type,
}
impl VisitMut for Subst {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.is_ident(&self.var) {
                *t = self.ty.clone();
                return;
            }
            // T::Parent
            if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == self.var {
                *t = parse_quote!(());
                return;
            }
        }
        visit_mut::visit_type_mut(self, t)
    }
    // T::CONST
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == self.var {
            let (ty, id) = (&self.ty, &p.path.segments[1].ident);
            if !id.to_string().chars().any(|c| c.is_lowercase()) {
                *p = parse_quote!( <#ty>::#id );
                return;
            }
        }
        visit_mut::visit_expr_path_mut(self, p)
    }
}

/// Adds contracts to loops, in order of occurrence.
struct Loops<'a, 'u> {
    cx: &'a Ctx<'u>,
    fun: String,
    spec: Option<&'a FnSpec>,
    deflabels: Vec<String>,
    ps: Vec<String>,
    h: String,
    selfty: String,
    n: usize,
    calls: HashMap<String, usize>,
    has_ret: bool,
}

impl<'a, 'u> Loops<'a, 'u> {
    fn spec_at(&self, n: usize) -> (TokenStream, TokenStream, TokenStream) {
        let Some(b) = self.spec.and_then(|s| s.loops.get(&n)) else {
            return (quote!(), quote!(), quote!());
        };
        let parts = clauses(b, &self.fun, &format!("loop {}", n), &self.deflabels, &self.ps, &self.h, &self.selfty);
        let id = self.cx.raw(parts);
        (quote!(#id), self.proof(&b.proof_start), self.proof(&b.proof_end))
    }
    fn proof(&self, t: &str) -> TokenStream {
        if t.trim().is_empty() {
            return quote!();
        }
        let t = fill(t, &self.ps, &self.h, &self.selfty);
        // ghost variables live outside of the proof block
        let ghosts: String = t.lines().filter(|l| l.trim_start().starts_with("let ghost")).map(|l| format!("{}\n", l)).collect();
        let t: String = t.lines().filter(|l| !l.trim_start().starts_with("let ghost")).map(|l| format!("{}\n", l)).collect();
        let id = self.cx.raw(vec![(
            format!("{}proof {{\n{}\n}}", ghosts, t.trim_end()),
            json!({"fn": self.fun, "kind": "proof", "place": "body", "labels": self.deflabels, "own_label": false, "text": t.trim()}),
        )]);
        quote!(#id)
    }
}

impl<'a, 'u> VisitMut for Loops<'a, 'u> {
    fn visit_block_mut(&mut self, b: &mut Block_) {
        let mut out: Vec<Stmt> = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            self.visit_stmt_mut(&mut s);
            let calls: Vec<(String, usize, bool, String)> = self.spec.map(|s| s.calls.clone()).unwrap_or_default();
            let mut before = quote!();
            let mut after = quote!();
            if !calls.is_empty() {
                let names = called(&s);
                let mut seen = vec![];
                for nm in names {
                    let k = self.calls.entry(nm.clone()).or_insert(0);
                    seen.push((nm, *k));
                    *k += 1;
                }
                for (nm, k, aft, text) in &calls {
                    if seen.iter().any(|(a, b)| a == nm && b == k) {
                        let p = self.proof(text);
                        if *aft {
                            after.extend(p)
                        } else {
                            before.extend(p)
                        }
                    }
                }
            }
            if !before.is_empty() {
                out.push(Stmt::Expr(Expr::Verbatim(before), Some(Default::default())));
            }
            out.push(s);
            if !after.is_empty() {
                out.push(Stmt::Expr(Expr::Verbatim(after), Some(Default::default())));
            }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Loop(l) => {
                let n = self.n;
                self.n += 1;
                self.visit_block_mut(&mut l.body);
                let (sp, ps, pe) = self.spec_at(n);
                let (label, stmts) = (&l.label, &l.body.stmts);
                *e = Expr::Verbatim(quote!( #label loop #sp { #ps #(#stmts)* #pe } ));
            }
            Expr::While(w) => {
                let n = self.n;
                self.n += 1;
                self.visit_block_mut(&mut w.body);
                let (sp, ps, pe) = self.spec_at(n);
                let (label, stmts) = (&w.label, &w.body.stmts);
                if let Expr::Let(l) = &*w.cond {
                    // while let P = E { B }  is  loop { match E { P => B, _ => break } }
                    let (pat, ex) = (&l.pat, &l.expr);
                    if self.cx.u.opts.contains_key("keep_while_let") {
                        *e = Expr::Verbatim(quote!( #label while let #pat = #ex #sp { #ps #(#stmts)* #pe } ));
                    } else {
                        *e = Expr::Verbatim(quote!( #label loop #sp { #ps match #ex { #pat => { #(#stmts)* #pe } _ => break, } } ));
                    }
                } else {
                    let mut c = (*w.cond).clone();
                    self.visit_expr_mut(&mut c);
                    *e = Expr::Verbatim(quote!( #label while #c #sp { #ps #(#stmts)* #pe } ));
                }
            }
            Expr::ForLoop(f) => {
                let n = self.n;
                self.n += 1;
                self.visit_block_mut(&mut f.body);
                let (sp, ps, pe) = self.spec_at(n);
                let (label, pat, ex, stmts) = (&f.label, &f.pat, &f.expr, &f.body.stmts);
                if let Expr::Range(r) = &**ex {
                    if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                        // for P in A..B { S }  is  let mut i = A; let e = B; while i < e { let P = i; i += 1; S }
                        let (i, e2) = (format_ident!("vx_i{}", n), format_ident!("vx_e{}", n));
                        *e = Expr::Verbatim(quote!( { let mut #i = #a; let #e2 = #b; #label while #i < #e2 #sp { let #pat = #i; #i = #i + 1; #ps #(#stmts)* #pe } } ));
                        return;
                    }
                }
                if let Expr::MethodCall(m) = &**ex {
                    if m.method == "bytes" && m.args.is_empty() {
                        // for P in X.bytes() { S }: an index over the bytes
                        let (i, e2, r) = (format_ident!("vx_i{}", n), format_ident!("vx_e{}", n), &m.receiver);
                        *e = Expr::Verbatim(quote!( { let mut #i: usize = 0; let #e2 = vx_bytes(#r); #label while #i < #e2.len() #sp { let #pat = #e2[#i]; #i = #i + 1; #ps #(#stmts)* #pe } } ));
                        return;
                    }
                }
                if self.cx.u.opts.contains_key("list_for") {
                    // for P in LIST { B }  is  let mut it = LIST; while let Cons(h, t) = it { it = *t; let P = h; B }
                    let (it, h, t) = (format_ident!("vx_it{}", n), format_ident!("vx_h{}", n), format_ident!("vx_t{}", n));
                    *e = Expr::Verbatim(quote!( { let mut #it = (#ex).vx_list(); #label while let List::Cons(#h, #t) = #it #sp { #it = *#t; let #pat = #h; #ps #(#stmts)* #pe } } ));
                    return;
                }
                *e = Expr::Verbatim(quote!( #label for #pat in #ex #sp { #ps #(#stmts)* #pe } ));
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

/// Names of the functions and methods called in a statement, in order.
fn called(s: &Stmt) -> Vec<String> {
    struct V(Vec<String>);
    impl<'x> syn::visit::Visit<'x> for V {
        fn visit_expr_call(&mut self, c: &'x ExprCall) {
            syn::visit::visit_expr_call(self, c);
            if let Expr::Path(p) = &*c.func {
                self.0.push(p.path.segments.last().unwrap().ident.to_string())
            }
        }
        fn visit_expr_method_call(&mut self, c: &'x ExprMethodCall) {
            syn::visit::visit_expr_method_call(self, c);
            self.0.push(c.method.to_string())
        }
        fn visit_block(&mut self, _: &'x Block_) {}
    }
    let mut v = V(vec![]);
    syn::visit::Visit::visit_stmt(&mut v, s);
    v.0
}

pub fn count_loops(b: &Block_) -> usize {
    struct V(usize);
    impl<'x> syn::visit::Visit<'x> for V {
        fn visit_expr(&mut self, e: &'x Expr) {
            if matches!(e, Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_)) {
                self.0 += 1
            }
            syn::visit::visit_expr(self, e)
        }
    }
    let mut v = V(0);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

impl<'u> Ctx<'u> {
    /// Each function goes into a module of its own: the verifier works on modules in parallel.
    pub fn module(&self, t: TokenStream) -> TokenStream {
        let n = *self.mods.borrow();
        *self.mods.borrow_mut() += 1;
        let m = format_ident!("vx_m{}", n);
        quote!( pub mod #m { use super::*; #t } pub use #m::*; )
    }

    /// Render one function with its contract.
    pub fn function(&self, key: &str, mut sig: Signature, body: Option<Block_>, vis: bool, spec: Option<&FnSpec>, h: &str, selfty: &str) -> TokenStream {
        let mut n = Norm { cx: self, local_tables: vec![], local_consts: vec![], globs: vec![] };
        n.visit_signature_mut(&mut sig);
        sig.unsafety = None;
        sig.constness = None;
        for (i, a) in sig.inputs.iter_mut().enumerate() {
            if let FnArg::Typed(t) = a {
                if matches!(*t.pat, Pat::Wild(_)) {
                    let id = format_ident!("vx_arg{}", i);
                    t.pat = Box::new(parse_quote!( #id ));
                }
            }
        }
        let ps = params(&sig);
        let deflabels = spec.map(|s| s.labels.clone()).unwrap_or_default();
        let ret = spec.and_then(|s| s.ret.clone()).unwrap_or_else(|| "ret".into());
        let output = match &sig.output {
            ReturnType::Default => quote!(),
            ReturnType::Type(_, t) => {
                let r = format_ident!("{}", ret);
                if norm(t) == "!" { quote!(-> !) } else { quote!(-> (#r: #t)) }
            }
        };
        let stub = spec.map_or(false, |s| s.stub);
        let mut lost = vec![];
        let mut loops = 0;
        let mut probed = false;
        let has_body = body.is_some();
        let body_ts = match body {
            None => quote!(;),
            Some(_) if stub => quote!({ unimplemented!() }),
            Some(mut b) => {
                n.visit_block_mut(&mut b);
                loops = count_loops(&b);
                if let Some(s) = spec {
                    for k in s.loops.keys() {
                        if *k >= loops {
                            lost.push(format!("loop {} of {}", k, key));
                        }
                    }
                }
                let mut l = Loops {
                    cx: self,
                    fun: key.to_string(),
                    spec,
                    deflabels: deflabels.clone(),
                    ps: ps.clone(),
                    h: h.into(),
                    selfty: selfty.into(),
                    n: 0,
                    calls: HashMap::new(),
                    has_ret: !matches!(sig.output, ReturnType::Default),
                };
                l.visit_block_mut(&mut b);
                probed = spec.is_some() && self.u.opts.contains_key("probe");
                let probe = l.proof(if probed { "assert(false);" } else { "" });
                let start = l.proof(spec.map_or("", |s| s.top.proof_start.as_str()));
                let end = l.proof(spec.map_or("", |s| s.top.proof_end.as_str()));
                // (the end of a function that ends in a value is in front of that value)
                let tail = matches!(b.stmts.last(), Some(syn::Stmt::Expr(_, None))) && !matches!(sig.output, ReturnType::Default);
                let (stmts, last) = b.stmts.split_at(b.stmts.len() - tail as usize);
                quote!({ #probe #start #(#stmts)* #end #(#last)* })
            }
        };
        let parts = match spec {
            Some(s) => clauses(&s.top, key, "contract", &deflabels, &ps, h, selfty),
            None => vec![],
        };
        let mut head = vec![(
            format!("// fn {}", key),
            json!({"fn": key, "kind": "fn", "place": "head", "labels": deflabels, "own_label": false, "text": ""}),
        )];
        let mut attrs = String::new();
        if stub {
            attrs.push_str("#[verifier::external_body]\n");
        }
        if loops > 0 && !stub && self.u.opts.get("loop_isolation").map_or(false, |v| v == "false") {
            attrs.push_str("#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n");
        }
        // (a function that has no contract at all is drift: its termination is left open with the rest of it)
        let bare = spec.map_or(true, |s| s.top.clauses.is_empty());
        if (self.u.opts.contains_key("no_decreases") || bare) && !stub && has_body {
            attrs.push_str("#[verifier::exec_allows_no_decreases_clause]\n");
        }
        if let Some(s) = spec {
            for a in &s.attrs {
                attrs.push_str(a);
                attrs.push('\n');
            }
        }
        if !attrs.is_empty() {
            head.push((attrs.trim_end().to_string(), json!({"fn": key, "kind": "attr", "labels": [], "place": "head", "own_label": false, "text": attrs})));
        }
        let head = self.raw(head);
        let tail = self.raw(vec![("".into(), json!({"fn": key, "kind": "end", "place": "end", "labels": [], "own_label": false, "text": ""}))]);
        let sp = self.raw(parts);
        self.seen.borrow_mut().insert(
            key.to_string(),
            json!({"contract": spec.is_some(), "stub": stub, "probed": probed, "loops": loops, "lost": lost,
                   "loops_specified": spec.map_or(0, |s| s.loops.len()), "labels": deflabels}),
        );
        let (id, gen, inputs) = (&sig.ident, &sig.generics, &sig.inputs);
        let wh = &sig.generics.where_clause;
        let vis = if vis { quote!(pub) } else { quote!() };
        quote!( #head #vis fn #id #gen ( #inputs ) #output #wh #sp #body_ts #tail )
    }
}

fn ts(s: &str) -> TokenStream {
    TokenStream::from_str(s).unwrap_or_else(|e| panic!("tokens of {:?}: {}", s, e))
}

fn pub_fields(f: &mut Fields) {
    for x in f.iter_mut() {
        x.attrs.clear();
        x.vis = Visibility::Public(Default::default());
    }
}

pub fn run(u: &Unit, dir: &Path) -> std::result::Result<(String, Value), String> {
    let mut taken = vec![];
    let mut uses = vec![];
    for src in u.source.split_whitespace() {
        let text = std::fs::read_to_string(dir.join(format!("{}.rs", src))).map_err(|e| e.to_string())?;
        // 2015 edition: parameters of trait methods may have no name
        let anon: Vec<Rule> = [
            ("fn $I_f ( & mut $I_p < $x > )", "fn $I_f ( par : & mut $I_p < $x > )"),
            ("fn $I_f ( & mut self , $T_x ) ;", "fn $I_f ( & mut self , vx_a : $T_x ) ;"),
            ("fn $I_f ( & mut self , & $T_x ) ;", "fn $I_f ( & mut self , vx_a : & $T_x ) ;"),
        ]
        .iter()
        .map(|(p, r)| Rule { pat: tv(ts(p)), rep: tv(ts(r)), text: String::new(), used: Default::default() })
        .collect();
        let toks = rewrite(no_keywords(TokenStream::from_str(&text).map_err(|e| e.to_string())?), &anon);
        let file = syn::parse2::<File>(toks).map_err(|e| format!("parse {}: {} at {:?}", src, e, e.span().start()))?;
        let from = taken.len();
        collect(file.items, "", &[], &mut taken, &mut uses);
        for t in taken[from..].iter_mut() {
            t.crate_ = src.to_string();
        }
    }
    let rules: Vec<Rule> = u
        .rewrites
        .iter()
        .map(|(a, b)| Rule { pat: tv(ts(a)), rep: tv(ts(b)), text: format!("{} ~> {}", a, b), used: Default::default() })
        .collect();
    let mut items: Vec<Taken> = vec![];
    let mut dropped: BTreeSet<String> = BTreeSet::new();
    let mut modules = BTreeSet::new();
    for t in taken {
        for seg in t.module.split("::") {
            modules.insert(seg.to_string());
        }
        let full = if t.module.is_empty() { item_name(&t.item) } else { format!("{}::{}", t.module, item_name(&t.item)) };
        let qualified = format!("{}!{}", t.crate_, full);
        let inherent = match &t.item {
            Item::Impl(i) if i.trait_.is_none() => format!("impl:{}", item_name(&t.item)),
            _ => String::new(),
        };
        if !u.takes.iter().any(|p| covers(p, &full) || covers(p, &qualified)) {
            continue;
        }
        if u.drops.iter().any(|(p, _)| covers(p, &full) || covers(p, &qualified) || *p == inherent) {
            dropped.insert(full);
            continue;
        }
        // token level rewriting, then parse again
        let new = rewrite(t.item.to_token_stream(), &rules);
        if new.is_empty() {
            continue;
        }
        let item: Item = syn::parse2(new.clone()).map_err(|e| format!("after rewriting {}: {}\n{}", full, e, new))?;
        items.push(Taken { crate_: t.crate_, module: t.module, item });
    }
    let mut cx = Ctx {
        u,
        modules,
        aliases: Default::default(),
        tables: Default::default(),
        consts: Default::default(),
        raws: Default::default(),
        meta: Default::default(),
        raw_meta: Default::default(),
        fns: Default::default(),
        handlers: Default::default(),
        none_handlers: Default::default(),
        variants: Default::default(),
        structs: Default::default(),
        seen: Default::default(),
        notes: Default::default(),
        oob: RefCell::new(false),
        mods: RefCell::new(0),
    };
    let items = crate::weave::weave(u, items, &uses)?;
    let items = crate::lift::prepare(u, items)?;
    // instances of generic impls
    let mut items2: Vec<Taken> = vec![];
    for t in items {
        let name = item_name(&t.item);
        let inst: Vec<&(String, String)> = u.mono.iter().filter(|(k, _)| *k == name).collect();
        match (&t.item, inst.is_empty()) {
            (Item::Impl(i), false) => {
                for (_, b) in inst {
                    let (var, tys) = b.split_once('=').ok_or("mono needs T = A; B")?;
                    for ty in tys.split(';') {
                        let ty: Type = parse_str(ty.trim()).map_err(|e| format!("mono {}: {}", ty, e))?;
                        let mut i = i.clone();
                        i.generics.params = i.generics.params.into_iter().filter(|g| !matches!(g, GenericParam::Type(t) if t.ident == var.trim())).collect();
                        let v = var.trim().to_string();
                        if ty.to_token_stream().to_string().contains("'ast") && !i.generics.lifetimes().any(|l| l.lifetime.ident == "ast") {
                            i.generics.params.insert(0, parse_quote!('ast));
                        }
                        if let Some(w) = &mut i.generics.where_clause {
                            w.predicates = w.predicates.clone().into_iter().filter(|p| !matches!(p, WherePredicate::Type(t) if norm(&t.bounded_ty) == v)).collect();
                            if w.predicates.is_empty() {
                                i.generics.where_clause = None;
                            }
                        }
                        Subst { var: var.trim().to_string(), ty }.visit_item_impl_mut(&mut i);
                        items2.push(Taken { crate_: t.crate_.clone(), module: t.module.clone(), item: Item::Impl(i) });
                    }
                }
            }
            _ => items2.push(t),
        }
    }
    let items = items2;
    for t in &items {
        match &t.item {
            Item::Type(x) => {
                let (opt, inner) = match &*x.ty {
                    Type::Path(p) if p.path.segments.last().unwrap().ident == "Option" => {
                        let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments else { continue };
                        match a.args.first() {
                            Some(GenericArgument::Type(Type::BareFn(b))) => (true, b.clone()),
                            _ => continue,
                        }
                    }
                    Type::BareFn(b) => (false, b.clone()),
                    _ => continue,
                };
                cx.aliases.insert(x.ident.to_string(), (opt, inner));
            }
            Item::Enum(x) => {
                cx.variants.insert(x.ident.to_string(), x.variants.iter().map(|v| v.ident.to_string()).collect());
            }
            Item::Struct(x) => {
                cx.structs.insert(x.ident.to_string());
            }
            Item::Fn(f) => {
                cx.fns.insert(f.sig.ident.to_string());
            }
            _ => {}
        }
    }
    // handler constants, tables, plain constants
    let mut handler_fns: Vec<(String, String, ExprClosure)> = vec![];
    for t in &items {
        let (name, ty, expr) = match &t.item {
            Item::Const(c) => (c.ident.to_string(), &*c.ty, &*c.expr),
            Item::Static(c) => (c.ident.to_string(), &*c.ty, &*c.expr),
            _ => continue,
        };
        let alias = tkey(ty);
        if cx.aliases.contains_key(&alias) {
            match expr {
                Expr::Path(p) if p.path.is_ident("None") => {
                    cx.none_handlers.insert(name, alias);
                }
                Expr::Call(c) if norm(&c.func) == "Some" => match c.args.first() {
                    Some(Expr::Closure(cl)) => {
                        cx.handlers.entry(alias.clone()).or_default().push(name.clone());
                        handler_fns.push((name, alias, cl.clone()));
                    }
                    _ => return Err(format!("handler {} is not a closure", name)),
                },
                Expr::Closure(cl) => {
                    cx.handlers.entry(alias.clone()).or_default().push(name.clone());
                    handler_fns.push((name, alias, cl.clone()));
                }
                Expr::Block(_) | Expr::Path(_) => {
                    cx.note(format!("handler constant {} not understood", name));
                }
                _ => return Err(format!("handler {} not understood", name)),
            }
            continue;
        }
        let arr = match expr {
            Expr::Array(a) => Some(a),
            Expr::Reference(r) => match &*r.expr {
                Expr::Array(a) => Some(a),
                _ => None,
            },
            _ => None,
        };
        if let Some(a) = arr {
            cx.tables.insert(name, a.elems.iter().cloned().collect());
        } else {
            cx.consts.insert(name, expr.clone());
        }
    }
    let mut out = TokenStream::new();
    // handler enums, dispatch
    for (alias, (_opt, bare)) in &cx.aliases {
        let Some(names) = cx.handlers.get(alias) else { continue };
        let en = format_ident!("VxH_{}", alias);
        let ids: Vec<Ident> = names.iter().map(|n| format_ident!("{}", n)).collect();
        out.extend(quote!( #[derive(Copy, Clone)] pub enum #en { #(#ids,)* } ));
        // the table this alias is used in, if it is indexed by a byte
        for (tn, t) in &cx.tables {
            let hit = t.iter().any(|e| matches!(e, Expr::Path(p) if p.path.get_ident().map_or(false, |i| names.contains(&i.to_string()))));
            if !hit {
                continue;
            }
            let f = format_ident!("vx_pre_{}", alias);
            let arms = names.iter().map(|n| {
                let id = format_ident!("{}", n);
                let mut c = quote!(false);
                let idx: Vec<usize> = t.iter().enumerate().filter(|(_, e)| norm(e) == *n).map(|(i, _)| i).collect();
                let mut k = 0;
                while k < idx.len() {
                    let a = idx[k];
                    let mut b = a;
                    while k + 1 < idx.len() && idx[k + 1] == b + 1 {
                        k += 1;
                        b += 1;
                    }
                    k += 1;
                    let (a, b) = (LitInt::new(&a.to_string(), Span::call_site()), LitInt::new(&b.to_string(), Span::call_site()));
                    c = quote!( #c || (#a <= b && b <= #b) );
                }
                quote!( #en::#id => #c, )
            });
            let _ = tn;
            out.extend(quote!( pub open spec fn #f(h: #en, b: int) -> bool { match h { #(#arms)* } } ));
            break;
        }
        // or tables of a trait, indexed by an enumeration
        if let Some(en2) = u.opts.get("table VX_LUT") {
            let mut ts: Vec<Vec<Expr>> = vec![];
            for t in &items {
                if let Item::Impl(i) = &t.item {
                    for x in &i.items {
                        if let ImplItem::Fn(f) = x {
                            if let Some(Stmt::Item(Item::Const(c))) = f.block.stmts.iter().find(|s| matches!(s, Stmt::Item(Item::Const(c)) if c.ident == "VX_LUT")) {
                                if let Expr::Array(a) = &*c.expr {
                                    ts.push(a.elems.iter().cloned().collect())
                                }
                            }
                        }
                    }
                }
            }
            let vs = cx.variants.get(en2.as_str()).cloned().unwrap_or_default();
            let f = format_ident!("vx_pre_{}", alias);
            let ty = format_ident!("{}", en2);
            let arms = names.iter().map(|n| {
                let id = format_ident!("{}", n);
                let mut c = quote!(false);
                for (i, v) in vs.iter().enumerate() {
                    if ts.iter().any(|t| t.get(i).map_or(false, |e| norm(e) == *n)) {
                        let v = format_ident!("{}", v);
                        c = quote!( #c || t is #v );
                    }
                }
                quote!( #en::#id => #c, )
            });
            out.extend(quote!( pub open spec fn #f(h: #en, t: #ty) -> bool { match h { #(#arms)* } } ));
        }
        let spec = u.handlers.get(alias);
        let call = format_ident!("vx_call_{}", alias);
        let mut bare = bare.clone();
        for (i, a) in bare.inputs.iter_mut().enumerate() {
            a.name = Some((format_ident!("a{}", i), Default::default()));
        }
        let lts = bare.lifetimes.as_ref().map(|l| {
            let l = &l.lifetimes;
            quote!( < #l > )
        });
        let ins: Vec<TokenStream> = bare.inputs.iter().map(|a| {
            let (n, t) = (&a.name.as_ref().unwrap().0, &a.ty);
            quote!(#n: #t)
        }).collect();
        let args: Vec<Ident> = (0..bare.inputs.len()).map(|i| format_ident!("a{}", i)).collect();
        let outp = &bare.output;
        let arms = ids.iter().map(|i| quote!( #en::#i => #i( #(#args),* ), ));
        let f: ItemFn = parse_quote!( fn #call #lts (h: #en, #(#ins),*) #outp { match h { #(#arms)* } } );
        // parameters are numbered without h
        let spec2 = spec.map(|s| shift(s));
        let t = cx.function(&format!("vx_call_{}", alias), f.sig, Some(*f.block), true, spec2.as_ref(), "h", "");
        out.extend(cx.module(t));
    }
    for (name, alias, cl) in &handler_fns {
        let bare = &cx.aliases[alias].1;
        let lts = bare.lifetimes.as_ref().map(|l| {
            let l = &l.lifetimes;
            quote!( < #l > )
        });
        let ins: Vec<TokenStream> = cl.inputs.iter().zip(bare.inputs.iter()).map(|(p, a)| {
            let t = &a.ty;
            let p = match p { Pat::Type(t) => &t.pat, p => p };
            quote!(#p: #t)
        }).collect();
        let outp = &bare.output;
        let body = &cl.body;
        let body: Block_ = match &**body {
            Expr::Block(b) => b.block.clone(),
            e => parse_quote!({ #e }),
        };
        let id = format_ident!("{}", name);
        let f: ItemFn = parse_quote!( fn #id #lts (#(#ins),*) #outp #body );
        let h = format!("VxH_{}::{}", alias, name);
        let spec = merge(u.handlers.get(alias), u.fns.get(name));
        let t = cx.function(name, f.sig, Some(*f.block), true, spec.as_ref(), &h, "");
        out.extend(cx.module(t));
    }
    let mut body_items = TokenStream::new();
    for t in &items {
        render_item(&cx, t, &mut body_items)?;
    }
    out.extend(body_items);
    if *cx.oob.borrow() {
        out.extend(ts("#[verifier::external_body] pub fn vx_oob<T>() -> T requires false { unimplemented!() }"));
    }
    let mut text = String::from("#![allow(unused_imports, unused_variables, unused_mut, unused_assignments, dead_code, non_snake_case, non_camel_case_types, unreachable_code, unused_parens, unused_braces, unreachable_patterns, non_upper_case_globals, unused_must_use)]\nuse vstd::prelude::*;\nverus! {\n");
    for p in &u.preludes {
        text.push_str(p);
        text.push('\n');
    }
    let base = text.matches('\n').count();
    let raws = cx.raws.borrow().clone();
    let mut pr = Printer::new(&raws);
    pr.print(out);
    let marks: Vec<Value> = pr
        .marks
        .iter()
        .map(|(n, k, a, b)| {
            let mut v = cx.raw_meta.borrow()[&(*n, *k)].clone();
            v["first"] = json!(a + base);
            v["last"] = json!(b + base);
            v
        })
        .collect();
    text.push_str(&pr.out);
    text.push_str("\n} // verus!\nfn main() {}\n");
    let seen = cx.seen.borrow().clone();
    let lost: Vec<String> = u
        .fns
        .iter()
        .filter(|(k, s)| !seen.contains_key(*k) && !s.optional)
        .map(|(k, _)| format!("fn {}", k))
        .chain(seen.values().flat_map(|v| v["lost"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect::<Vec<_>>()))
        .collect();
    let js = json!({
        "functions": seen, "marks": marks, "lost": lost, "dropped": dropped,
        "drops": u.drops, "notes": *cx.notes.borrow(),
        "rewrites": rules.iter().map(|r| json!({"rule": r.text, "used": r.used.get()})).collect::<Vec<_>>(),
    });
    Ok((text, js))
}

/// Contracts of handlers speak of `$0` as the first parameter; the dispatcher has `h` before it.
fn shift(s: &FnSpec) -> FnSpec {
    let mut s = s.clone();
    for c in s.top.clauses.iter_mut() {
        for i in (0..6).rev() {
            c.text = c.text.replace(&format!("${}", i), &format!("${}", i + 1));
        }
        if c.kw == "decreases" {
            c.text = c.text.replace("#rank", "1int");
        }
    }
    s.loops.clear();
    s.top.proof_start.clear();
    s.top.proof_end.clear();
    s
}

fn merge(a: Option<&FnSpec>, b: Option<&FnSpec>) -> Option<FnSpec> {
    let mut r = match (a, b) {
        (None, None) => return None,
        (Some(a), None) => a.clone(),
        (None, Some(b)) => b.clone(),
        (Some(a), Some(b)) => {
            let mut r = a.clone();
            r.top.clauses.extend(b.top.clauses.iter().cloned());
            r.loops = b.loops.clone();
            r.calls = b.calls.clone();
            r.attrs.extend(b.attrs.iter().cloned());
            r.top.proof_start.push_str(&b.top.proof_start);
            r.top.proof_end.push_str(&b.top.proof_end);
            r
        }
    };
    for c in r.top.clauses.iter_mut() {
        c.text = c.text.replace("#rank", "0int");
    }
    Some(r)
}

fn derives(u: &Unit, name: &str) -> TokenStream {
    match u.derives.iter().find(|(n, _)| n == name) {
        Some((_, d)) => {
            let d = ts(d);
            quote!( #[derive(#d)] )
        }
        None => quote!(),
    }
}

fn render_item(cx: &Ctx, t: &Taken, out: &mut TokenStream) -> std::result::Result<(), String> {
    let u = cx.u;
    let mut n = Norm { cx, local_tables: vec![], local_consts: vec![], globs: vec![] };
    match t.item.clone() {
        Item::Enum(mut e) => {
            n.visit_item_enum_mut(&mut e);
            e.vis = Visibility::Public(Default::default());
            e.attrs.clear();
            for v in e.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.attrs.clear();
                }
            }
            let d = derives(u, &e.ident.to_string());
            out.extend(quote!( #d #e ));
        }
        Item::Struct(mut s) => {
            n.visit_item_struct_mut(&mut s);
            s.vis = Visibility::Public(Default::default());
            s.attrs.clear();
            pub_fields(&mut s.fields);
            let d = derives(u, &s.ident.to_string());
            out.extend(quote!( #d #s ));
        }
        Item::Type(mut x) => {
            let name = x.ident.to_string();
            if let Some((opt, _)) = cx.aliases.get(&name) {
                if cx.handlers.contains_key(&name) {
                    let en = format_ident!("VxH_{}", name);
                    let id = &x.ident;
                    if *opt {
                        out.extend(quote!( pub type #id = Option<#en>; ))
                    } else {
                        out.extend(quote!( pub type #id = #en; ))
                    }
                }
                return Ok(());
            }
            n.visit_item_type_mut(&mut x);
            x.vis = Visibility::Public(Default::default());
            x.attrs.clear();
            out.extend(quote!( #x ));
        }
        Item::Fn(f) => {
            let key = f.sig.ident.to_string();
            if u.drops.iter().any(|(p, _)| *p == key) {
                return Ok(());
            }
            let t = cx.function(&key, f.sig, Some(*f.block), true, u.fns.get(&key), "", "");
            out.extend(cx.module(t));
        }
        Item::Impl(mut i) => {
            let selfty = tkey(&i.self_ty);
            let base = item_name(&t.item);
            n.visit_type_mut(&mut i.self_ty);
            if let Some((_, p, _)) = i.trait_.as_mut() {
                n.visit_path_mut(p)
            }
            let gen = &i.generics;
            let wh = &i.generics.where_clause;
            let st = &i.self_ty;
            let mut inner = TokenStream::new();
            let is_trait = i.trait_.is_some();
            if let Some(p) = u.opts.get(&format!("impl {}", base)) {
                inner.extend(ts(p));
            }
            for it in &i.items {
                match it {
                    ImplItem::Fn(f) => {
                        let key = format!("{}::{}", base, f.sig.ident);
                        if u.drops.iter().any(|(p, _)| *p == key) {
                            continue;
                        }
                        let t = cx.function(&key, f.sig.clone(), Some(f.block.clone()), !is_trait, u.fns.get(&key), "", &selfty);
                        if is_trait {
                            inner.extend(t)
                        } else {
                            out.extend(cx.module(quote!( impl #gen #st #wh { #t } )))
                        }
                    }
                    ImplItem::Verbatim(t) => {
                        let t = ts(&t.to_string());
                        inner.extend(t)
                    }
                    ImplItem::Type(x) => {
                        let (a, b) = (&x.ident, &x.ty);
                        inner.extend(quote!( type #a = #b; ))
                    }
                    _ => {}
                }
            }
            let tr = i.trait_.as_ref().map(|(_, p, _)| quote!( #p for ));
            if is_trait {
                out.extend(cx.module(quote!( impl #gen #tr #st #wh { #inner } )));
            } else if !inner.is_empty() {
                out.extend(quote!( impl #gen #st #wh { #inner } ));
            }
        }
        Item::Trait(mut tr) => {
            let name = tr.ident.to_string();
            let id = tr.ident.clone();
            n.visit_generics_mut(&mut tr.generics);
            for b in tr.supertraits.iter_mut() {
                n.visit_type_param_bound_mut(b);
            }
            let (gen, wh, sup) = (&tr.generics, &tr.generics.where_clause, &tr.supertraits);
            let mut inner = TokenStream::new();
            if let Some(p) = u.opts.get(&format!("trait {}", name)) {
                inner.extend(ts(p));
            }
            for it in &tr.items {
                match it {
                    TraitItem::Fn(f) => {
                        let key = format!("{}::{}", name, f.sig.ident);
                        if u.drops.iter().any(|(p, _)| *p == key) {
                            continue;
                        }
                        let nobody = u.opts.contains_key(&format!("abstract {}", name)) || u.fns.get(&key).map_or(false, |s| s.no_body);
                        let b = if nobody { None } else { f.default.clone() };
                        inner.extend(cx.function(&key, f.sig.clone(), b, false, u.fns.get(&key), "", "Self"));
                    }
                    TraitItem::Type(x) => {
                        let a = &x.ident;
                        inner.extend(quote!( type #a; ))
                    }
                    _ => {}
                }
            }
            let colon = if sup.is_empty() { quote!() } else { quote!(: #sup) };
            out.extend(quote!( pub trait #id #gen #colon #wh { #inner } ));
        }
        _ => {}
    }
    Ok(())
}
