//! Jump tables, names that several modules use, copies of generic functions, string literals.
use crate::render::{item_name, norm, tkey, Taken};
use crate::spec::Unit;
use crate::toks::{rewrite, tv, Rule};
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;
use syn::visit_mut::{self, VisitMut};
use syn::*;

type R<T> = std::result::Result<T, String>;

fn rules(v: &[(String, String)]) -> Vec<Rule> {
    v.iter()
        .map(|(a, b)| Rule {
            pat: tv(TokenStream::from_str(a).unwrap()),
            rep: tv(TokenStream::from_str(b).unwrap()),
            text: format!("{} ~> {}", a, b),
            used: Default::default(),
        })
        .collect()
}

/// Handlers and tables are known by names in capitals.
fn shouting(n: &str) -> bool {
    n.chars().all(|c| c == '_' || c.is_ascii_uppercase() || c.is_ascii_digit())
}

fn use_leaves(t: &UseTree, path: &mut Vec<String>, out: &mut Vec<(Vec<String>, String)>) {
    match t {
        UseTree::Path(p) => {
            path.push(p.ident.to_string());
            use_leaves(&p.tree, path, out);
            path.pop();
        }
        UseTree::Name(n) => out.push((path.clone(), n.ident.to_string())),
        UseTree::Rename(n) => {
            let mut p = path.clone();
            p.push(format!("={}", n.ident));
            out.push((p, n.rename.to_string()))
        }
        UseTree::Glob(_) => out.push((path.clone(), "*".into())),
        UseTree::Group(g) => {
            for t in &g.items {
                use_leaves(t, path, out)
            }
        }
    }
}

fn absolute(module: &str, path: &[String]) -> String {
    let mut base: Vec<String> = if module.is_empty() { vec![] } else { module.split("::").map(|s| s.to_string()).collect() };
    match path.first().map(|s| s.as_str()) {
        Some("self") => {
            base.extend(path[1..].iter().cloned());
            base.join("::")
        }
        Some("super") => {
            base.pop();
            base.extend(path[1..].iter().cloned());
            base.join("::")
        }
        _ => path.join("::"),
    }
}

struct Ren<'a> {
    map: &'a BTreeMap<String, String>,
}
impl<'a> VisitMut for Ren<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                if let Some(n) = self.map.get(&i.to_string()) {
                    let n = format_ident!("{}", n);
                    *e = parse_quote!(#n);
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e)
    }
}

/// Free functions and handler constants get the name of their module, so that modules do not get mixed up.
fn rename(items: &mut Vec<Taken>, uses: &[(String, ItemUse)]) {
    let mut own: BTreeMap<String, BTreeMap<String, String>> = BTreeMap::new();
    for t in items.iter() {
        let n = match &t.item {
            Item::Fn(f) => f.sig.ident.to_string(),
            Item::Const(c) if matches!(&*c.expr, Expr::Array(_) | Expr::Reference(_)) => continue,
            Item::Const(c) => c.ident.to_string(),
            _ => continue,
        };
        if shouting(&n) {
            let m = t.module.rsplit("::").next().unwrap_or("");
            own.entry(t.module.clone()).or_default().insert(n.clone(), format!("{}_{}", m, n));
        }
    }
    let mut scope = BTreeMap::new();
    for m in items.iter().map(|t| t.module.clone()).collect::<BTreeSet<_>>() {
        let mut s: BTreeMap<String, String> = BTreeMap::new();
        let mut named: BTreeMap<String, String> = BTreeMap::new();
        for (um, u) in uses.iter().filter(|(um, _)| *um == m) {
            let mut l = vec![];
            use_leaves(&u.tree, &mut vec![], &mut l);
            for (mut p, n) in l {
                let mut orig = n.clone();
                if p.last().map_or(false, |x| x.starts_with('=')) {
                    orig = p.pop().unwrap()[1..].to_string();
                }
                let Some(o) = own.get(&absolute(um, &p)) else { continue };
                if n == "*" {
                    for (k, v) in o {
                        s.entry(k.clone()).or_insert(v.clone());
                    }
                } else if let Some(v) = o.get(&orig) {
                    named.insert(n, v.clone());
                }
            }
        }
        s.extend(named);
        if let Some(o) = own.get(&m) {
            s.extend(o.clone());
        }
        scope.insert(m, s);
    }
    for t in items.iter_mut() {
        let map = &scope[&t.module];
        Ren { map }.visit_item_mut(&mut t.item);
        if let Some(o) = own.get(&t.module) {
            match &mut t.item {
                Item::Fn(f) => {
                    if let Some(n) = o.get(&f.sig.ident.to_string()) {
                        f.sig.ident = format_ident!("{}", n)
                    }
                }
                Item::Const(c) => {
                    if let Some(n) = o.get(&c.ident.to_string()) {
                        c.ident = format_ident!("{}", n)
                    }
                }
                _ => {}
            }
        }
    }
}

fn array(e: &Expr) -> Option<&ExprArray> {
    match e {
        Expr::Array(a) => Some(a),
        Expr::Reference(r) => array(&r.expr),
        _ => None,
    }
}

/// The element type of an array, a reference to one, or an alias of either.
fn elem(t: &Type, types: &BTreeMap<String, Type>) -> Option<String> {
    match t {
        Type::Array(a) => Some(tkey(&a.elem)),
        Type::Reference(r) => elem(&r.elem, types),
        Type::Path(_) => types.get(&tkey(t)).and_then(|t| elem(t, types)),
        _ => None,
    }
}

struct Jumps {
    tables: BTreeMap<String, Option<String>>, // table -> alias of its type
    alias_of_type: BTreeSet<String>,
}
impl VisitMut for Jumps {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            if norm(&c.func) == "vx_jump_to" && c.args.len() >= 2 {
                let t = norm(&c.args[0]);
                let args: Vec<Expr> = c.args.iter().skip(1).cloned().collect();
                let mut args2 = args.clone();
                for a in args2.iter_mut() {
                    self.visit_expr_mut(a)
                }
                if self.tables.contains_key(&t) {
                    let f = format_ident!("vx_jump_{}", t);
                    *e = parse_quote!( #f( #(#args2),* ) );
                } else {
                    let Some(al) = self.alias_of_type.iter().next() else { return };
                    let f = format_ident!("vx_jump_{}", al);
                    let t = &c.args[0];
                    *e = parse_quote!( #f( #t, #(#args2),* ) );
                }
                return;
            }
        }
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                if let Some(Some(al)) = self.tables.get(&i.to_string()) {
                    let (en, i) = (format_ident!("VxT_{}", al), i.clone());
                    *e = parse_quote!( #en::#i );
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e)
    }
}

/// Tables of function pointers become functions that match on the token they are indexed by.
fn jumps(items: &mut Vec<Taken>, variants: &[String], index: &str) -> R<()> {
    let mut types: BTreeMap<String, Type> = BTreeMap::new();
    let mut bare: BTreeMap<String, TypeBareFn> = BTreeMap::new();
    for t in items.iter() {
        if let Item::Type(x) = &t.item {
            types.insert(x.ident.to_string(), (*x.ty).clone());
            if let Type::BareFn(b) = &*x.ty {
                bare.insert(x.ident.to_string(), b.clone());
            }
        }
    }
    let mut tables = BTreeMap::new();
    let mut out = vec![];
    let mut members: BTreeMap<String, (String, Vec<String>)> = BTreeMap::new();
    let mut keep = vec![];
    for t in std::mem::take(items) {
        let (name, ty, expr) = match &t.item {
            Item::Const(c) => (c.ident.to_string(), &*c.ty, &*c.expr),
            Item::Static(c) => (c.ident.to_string(), &*c.ty, &*c.expr),
            _ => {
                keep.push(t);
                continue;
            }
        };
        let (Some(a), Some(b)) = (array(expr), elem(ty, &types).and_then(|e| bare.get(&e).cloned())) else {
            keep.push(t);
            continue;
        };
        let alias = match ty {
            Type::Path(_) => Some(tkey(ty)),
            _ => None,
        };
        if a.elems.len() < variants.len() {
            return Err(format!("table {} is too short", name));
        }
        let mut groups: Vec<(String, Vec<usize>)> = vec![];
        for (i, e) in a.elems.iter().enumerate().take(variants.len()) {
            let k = norm(e);
            match groups.iter_mut().find(|g| g.0 == k) {
                Some(g) => g.1.push(i),
                None => groups.push((k, vec![i])),
            }
        }
        let en = format_ident!("{}", index);
        let ps: Vec<_> = (0..b.inputs.len()).map(|i| format_ident!("a{}", i)).collect();
        let tys = b.inputs.iter().map(|a| &a.ty);
        let lts = b.lifetimes.as_ref().map(|l| {
            let l = &l.lifetimes;
            quote!( < #l > )
        });
        let arms = groups.iter().map(|(k, is)| {
            let f = format_ident!("{}", k);
            let vs = is.iter().map(|i| format_ident!("{}", variants[*i]));
            quote!( #( #en::#vs )|* => #f( #(#ps),* ), )
        });
        let f = format_ident!("vx_jump_{}", name);
        let ret = &b.output;
        let item: ItemFn = parse2(quote!( fn #f #lts (vx_token: #en, #(#ps: #tys),*) #ret { match vx_token { #(#arms)* } } )).map_err(|e| e.to_string())?;
        out.push(Taken { crate_: t.crate_.clone(), module: t.module.clone(), item: Item::Fn(item) });
        if let Some(al) = &alias {
            let m = members.entry(al.clone()).or_insert((elem(ty, &types).unwrap(), vec![]));
            m.1.push(name.clone());
        }
        tables.insert(name, alias);
    }
    for (al, (h, ms)) in &members {
        let b = &bare[h];
        let en = format_ident!("VxT_{}", al);
        let tok = format_ident!("{}", index);
        let ids: Vec<_> = ms.iter().map(|m| format_ident!("{}", m)).collect();
        let fs: Vec<_> = ms.iter().map(|m| format_ident!("vx_jump_{}", m)).collect();
        let ps: Vec<_> = (0..b.inputs.len()).map(|i| format_ident!("a{}", i)).collect();
        let tys = b.inputs.iter().map(|a| &a.ty);
        let lts = b.lifetimes.as_ref().map(|l| {
            let l = &l.lifetimes;
            quote!( < #l > )
        });
        let f = format_ident!("vx_jump_{}", al);
        let ret = &b.output;
        let arms: Vec<TokenStream> = ids.iter().zip(fs.iter()).map(|(i, g)| quote!( #en::#i => #g(vx_token, #(#ps),*), )).collect();
        out.push(Taken { crate_: String::new(), module: String::new(), item: Item::Enum(parse_quote!( pub enum #en { #(#ids),* } )) });
        let item: ItemFn = parse2(quote!( fn #f #lts (vx_table: #en, vx_token: #tok, #(#ps: #tys),*) #ret { match vx_table { #(#arms)* } } )).map_err(|e| e.to_string())?;
        out.push(Taken { crate_: String::new(), module: String::new(), item: Item::Fn(item) });
    }
    // the alias of a table's type is the enumeration of its tables
    for t in keep.iter_mut() {
        if let Item::Type(x) = &mut t.item {
            if members.contains_key(&x.ident.to_string()) {
                let en = format_ident!("VxT_{}", x.ident);
                x.ty = Box::new(parse_quote!(#en));
            }
        }
    }
    let mut j = Jumps { tables, alias_of_type: members.keys().cloned().collect() };
    for t in keep.iter_mut() {
        j.visit_item_mut(&mut t.item)
    }
    keep.extend(out);
    *items = keep;
    Ok(())
}

/// `const F: H = { fn f(a, b) -> T { body } Some(f) }` is `Some(|a, b| { body })`; tables in a trait become functions.
fn consts(items: &mut Vec<Taken>, index: &str) {
    for t in items.iter_mut() {
        match &mut t.item {
            Item::Const(c) => {
                let Expr::Block(b) = &*c.expr else { continue };
                let [Stmt::Item(Item::Fn(f)), Stmt::Expr(tail, None)] = b.block.stmts.as_slice() else { continue };
                let some = format!("Some({})", f.sig.ident);
                let n = norm(tail);
                if n != some && n != f.sig.ident.to_string() {
                    continue;
                }
                let ps = f.sig.inputs.iter().map(|a| match a {
                    FnArg::Typed(t) => t.pat.to_token_stream(),
                    FnArg::Receiver(_) => quote!(self),
                });
                let body = &f.block;
                let cl: Expr = parse_quote!( |#(#ps),*| #body );
                *c.expr = if n == some { parse_quote!( Some(#cl) ) } else { cl };
            }
            Item::Trait(tr) => {
                for it in tr.items.iter_mut() {
                    let TraitItem::Const(c) = it else { continue };
                    let Type::Array(a) = &c.ty else { continue };
                    let (f, e, tok) = (format_ident!("vx_{}", c.ident), &a.elem, format_ident!("{}", index));
                    *it = parse_quote!( fn #f(vx_token: #tok) -> #e; );
                }
            }
            Item::Impl(i) if i.trait_.is_some() => {
                for it in i.items.iter_mut() {
                    let ImplItem::Const(c) = it else { continue };
                    let Type::Array(a) = &c.ty else { continue };
                    let Some(arr) = array(&c.expr) else { continue };
                    let (f, e, tok) = (format_ident!("vx_{}", c.ident), &a.elem, format_ident!("{}", index));
                    *it = parse_quote!( fn #f(vx_token: #tok) -> #e { const VX_LUT: [#e; 0] = #arr; VX_LUT[vx_token as usize] } );
                }
            }
            _ => {}
        }
    }
    // Self::LUT[token as usize]
    struct V;
    impl VisitMut for V {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            let Expr::Index(ix) = e else { return };
            let Expr::Path(p) = &*ix.expr else { return };
            if p.path.segments.len() == 2 && shouting(&p.path.segments[1].ident.to_string()) && p.path.segments[1].ident != "VX_LUT" {
                let (a, f) = (&p.path.segments[0], format_ident!("vx_{}", p.path.segments[1].ident));
                let idx = match &*ix.index {
                    Expr::Cast(c) => &*c.expr,
                    e => e,
                };
                *e = parse_quote!( #a::#f(#idx) );
            }
        }
    }
    for t in items.iter_mut() {
        V.visit_item_mut(&mut t.item)
    }
}

fn key_of(base: &str, f: &ImplItemFn) -> String {
    format!("{}::{}", base, f.sig.ident)
}

fn copies(u: &Unit, items: &mut Vec<Taken>) -> R<()> {
    let mut out = vec![];
    for (key, new, subs) in &u.copies {
        let rs = rules(subs);
        let mut hit = false;
        for t in items.iter() {
            let base = item_name(&t.item);
            let (f, imp) = match &t.item {
                Item::Impl(i) => match i.items.iter().find_map(|x| match x {
                    ImplItem::Fn(f) if key_of(&base, f) == *key => Some(f.clone()),
                    _ => None,
                }) {
                    Some(f) => (f, i.clone()),
                    None => continue,
                },
                _ => continue,
            };
            hit = true;
            let mut f = f;
            f.sig.ident = format_ident!("{}", new);
            f.vis = Visibility::Inherited;
            f.sig.generics.where_clause = None;
            f.sig.generics.params = f.sig.generics.params.clone().into_iter().filter(|p| matches!(p, GenericParam::Lifetime(_))).collect();
            if imp.trait_.is_some() && f.sig.receiver().is_none() {
                if !f.sig.generics.lifetimes().any(|l| l.lifetime.ident == "ast") {
                    f.sig.generics.params.insert(0, parse_quote!('ast));
                }
                let toks = rewrite(f.to_token_stream(), &rs);
                let item: ItemFn = parse2(toks.clone()).map_err(|e| format!("copy {}: {}\n{}", new, e, toks))?;
                out.push(Taken { crate_: t.crate_.clone(), module: t.module.clone(), item: Item::Fn(item) });
            } else {
                let toks = rewrite(f.to_token_stream(), &rs);
                let f: ImplItemFn = parse2(toks.clone()).map_err(|e| format!("copy {}: {}\n{}", new, e, toks))?;
                let mut i = imp.clone();
                i.items = vec![ImplItem::Fn(f)];
                out.push(Taken { crate_: t.crate_.clone(), module: t.module.clone(), item: Item::Impl(i) });
            }
            break;
        }
        if !hit {
            return Err(format!("nothing to copy: {}", key));
        }
    }
    // what was copied is gone
    let gone: BTreeSet<String> = u.copies.iter().map(|(k, _, _)| k.clone()).collect();
    for t in items.iter_mut() {
        let base = item_name(&t.item);
        if let Item::Impl(i) = &mut t.item {
            i.items.retain(|x| !matches!(x, ImplItem::Fn(f) if gone.contains(&key_of(&base, f))));
        }
    }
    items.retain(|t| !matches!(&t.item, Item::Impl(i) if i.items.iter().all(|x| !matches!(x, ImplItem::Fn(_))) && i.trait_.as_ref().map_or(false, |(_, p, _)| {
        let n = p.segments.last().unwrap().ident.to_string();
        u.copies.iter().any(|(k, _, _)| k.starts_with(&format!("{}@", n)))
    })));
    items.extend(out);
    Ok(())
}

/// Rewriting within one function.
fn within(u: &Unit, items: &mut Vec<Taken>) -> R<()> {
    for t in items.iter_mut() {
        let base = item_name(&t.item);
        match &mut t.item {
            Item::Fn(f) => {
                let k = f.sig.ident.to_string();
                for (_, subs) in u.within.iter().filter(|(n, _)| *n == k) {
                    let toks = rewrite(f.to_token_stream(), &rules(subs));
                    *f = parse2(toks.clone()).map_err(|e| format!("in {}: {}\n{}", f.sig.ident, e, toks))?;
                }
            }
            Item::Impl(i) => {
                for x in i.items.iter_mut() {
                    if let ImplItem::Fn(f) = x {
                        let k = key_of(&base, f);
                        for (_, subs) in u.within.iter().filter(|(n, _)| *n == k) {
                            let toks = rewrite(f.to_token_stream(), &rules(subs));
                            *f = parse2(toks.clone()).map_err(|e| format!("in {}: {}\n{}", k, e, toks))?;
                        }
                    }
                }
            }
            _ => {}
        }
    }
    Ok(())
}

pub fn lit_id(s: &str) -> Option<u128> {
    if s.len() > 15 {
        return None;
    }
    Some(s.bytes().rev().fold(0u128, |a, b| a * 256 + b as u128))
}

struct Strs;
fn is_str(e: &Expr) -> bool {
    matches!(e, Expr::Lit(ExprLit { lit: Lit::Str(_), .. }))
}
impl VisitMut for Strs {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Binary(b) = e {
            if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (is_str(&b.left) || is_str(&b.right)) {
                let (l, r) = (&b.left, &b.right);
                let mut x: Expr = if matches!(b.op, BinOp::Eq(_)) { parse_quote!( vx_eq(#l, #r) ) } else { parse_quote!( !vx_eq(#l, #r) ) };
                visit_mut::visit_expr_mut(self, &mut x);
                *e = x;
                return;
            }
        }
        if let Expr::Match(m) = e {
            let lit = |p: &Pat| matches!(p, Pat::Lit(ExprLit { lit: Lit::Str(_), .. }));
            let known = m.arms.iter().all(|a| a.guard.is_none() && (lit(&a.pat) || matches!(a.pat, Pat::Wild(_)) || matches!(&a.pat, Pat::Or(o) if o.cases.iter().all(lit))));
            if known && m.arms.iter().any(|a| !matches!(a.pat, Pat::Wild(_))) && matches!(m.arms.last().map(|a| &a.pat), Some(Pat::Wild(_))) {
                let x = &m.expr;
                let mut acc: Option<Expr> = None;
                for a in m.arms.iter().rev() {
                    let b = &a.body;
                    acc = Some(match (&a.pat, acc) {
                        (Pat::Wild(_), _) => parse_quote!({ #b }),
                        (Pat::Or(o), Some(rest)) => {
                            let c = o.cases.iter();
                            parse_quote!( if #( vx_eq(vx_matched, #c) )||* { #b } else #rest )
                        }
                        (p, Some(rest)) => parse_quote!( if vx_eq(vx_matched, #p) { #b } else #rest ),
                        _ => return,
                    });
                }
                let acc = acc.unwrap();
                let mut y: Expr = parse_quote!({ let vx_matched = #x; #acc });
                visit_mut::visit_expr_mut(self, &mut y);
                *e = y;
                return;
            }
        }
        if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = e {
            if let Some(id) = lit_id(&s.value()) {
                let l = LitInt::new(&format!("{}u128", id), proc_macro2::Span::call_site());
                *e = parse_quote!( vx_lit(#l) );
            }
            return;
        }
        visit_mut::visit_expr_mut(self, e)
    }
    fn visit_pat_mut(&mut self, _: &mut Pat) {}
}

/// Reads of a field become calls.
struct Fields_(Vec<(String, String)>);
impl VisitMut for Fields_ {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Field(f) = e {
            if let Member::Named(n) = &f.member {
                if let Some((_, m)) = self.0.iter().find(|(k, _)| n == k) {
                    let (b, m) = (&f.base, format_ident!("{}", m));
                    *e = parse_quote!( #b.#m() );
                }
            }
        }
    }
}

/// Locals that something is pushed to are changed by that.
struct Pushed(String);
impl VisitMut for Pushed {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        struct V<'a>(&'a str, BTreeSet<String>);
        impl<'a, 'x> syn::visit::Visit<'x> for V<'a> {
            fn visit_expr_method_call(&mut self, m: &'x ExprMethodCall) {
                if self.0.split(',').any(|x| m.method == x) {
                    self.1.insert(norm(&m.receiver));
                }
                syn::visit::visit_expr_method_call(self, m)
            }
        }
        let mut v = V(&self.0, Default::default());
        syn::visit::Visit::visit_block(&mut v, b);
        for s in b.stmts.iter_mut() {
            if let Stmt::Local(l) = s {
                let p = match &mut l.pat {
                    Pat::Type(t) => &mut *t.pat,
                    p => p,
                };
                if let Pat::Ident(i) = p {
                    if v.1.contains(&i.ident.to_string()) {
                        i.mutability = Some(Default::default());
                    }
                }
            }
        }
    }
}

/// `impl From<X> for Y { fn from(x: X) -> Y { E } }` says what it makes.
fn froms(items: &mut Vec<Taken>) {
    for t in items.iter_mut() {
        let Item::Impl(i) = &mut t.item else { continue };
        let Some((_, p, _)) = &mut i.trait_ else { continue };
        let last = p.segments.last_mut().unwrap();
        if last.ident != "From" {
            continue;
        }
        last.ident = format_ident!("VxFrom");
        let mut extra = vec![];
        for x in i.items.iter_mut() {
            if let ImplItem::Fn(f) = x {
                f.sig.ident = format_ident!("vx_from");
                let (ins, out, b) = (&f.sig.inputs, &f.sig.output, &f.block);
                extra.push(ImplItem::Verbatim(quote!( open spec fn mk(#ins) #out #b )));
            }
        }
        i.items.extend(extra);
    }
}

pub fn weave(u: &Unit, mut items: Vec<Taken>, uses: &[(String, ItemUse)]) -> R<Vec<Taken>> {
    let Some(index) = u.opts.get("weave").cloned() else { return Ok(items) };
    let variants: Vec<String> = items
        .iter()
        .find_map(|t| match &t.item {
            Item::Enum(e) if e.ident == index => Some(e.variants.iter().map(|v| v.ident.to_string()).collect()),
            _ => None,
        })
        .unwrap_or_default();
    rename(&mut items, uses);
    consts(&mut items, &index);
    jumps(&mut items, &variants, &index)?;
    copies(u, &mut items)?;
    within(u, &mut items)?;
    froms(&mut items);
    for t in items.iter_mut() {
        if let Item::Enum(_) | Item::Struct(_) = t.item {
            continue;
        }
        if let Some(f) = u.opts.get("field_fn") {
            let v = f.split(',').filter_map(|x| x.split_once('=')).map(|(a, b)| (a.trim().into(), b.trim().into())).collect();
            Fields_(v).visit_item_mut(&mut t.item);
        }
        if let Some(p) = u.opts.get("mut_push") {
            Pushed(p.clone()).visit_item_mut(&mut t.item);
        }
        if u.opts.contains_key("str_ids") {
            Strs.visit_item_mut(&mut t.item);
        }
    }
    Ok(items)
}
