//! Default methods of a trait: inlined into their callers, lifted out of the trait, copied into the impls that inherit
//! them, or moved to a trait of their own. Byte string literals are written byte by byte.
use crate::render::{item_name, tkey, Taken};
use crate::spec::Unit;
use quote::format_ident;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
enum How {
    Inline(Vec<String>, Box<Expr>),
    Free,
    On,
}

struct SelfTo {
    map: Vec<(String, Expr)>,
}
impl VisitMut for SelfTo {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                if let Some((_, r)) = self.map.iter().find(|(n, _)| i == n) {
                    *e = r.clone();
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e)
    }
}

struct Calls<'a> {
    how: &'a BTreeMap<String, How>,
    locals: BTreeSet<String>,
    bytes: Option<(String, String)>,
    strs: bool,
    keys: Option<String>,
}

fn mut_locals(b: &Block) -> BTreeSet<String> {
    struct V(BTreeSet<String>);
    impl<'x> syn::visit::Visit<'x> for V {
        fn visit_local(&mut self, l: &'x Local) {
            if let Pat::Ident(i) = &l.pat {
                if i.mutability.is_some() {
                    self.0.insert(i.ident.to_string());
                }
            }
            syn::visit::visit_local(self, l)
        }
    }
    let mut v = V(Default::default());
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

impl<'a> Calls<'a> {
    fn recv(&self, e: &Expr) -> Expr {
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                if self.locals.contains(&i.to_string()) {
                    return parse_quote!(&mut #e);
                }
            }
        }
        e.clone()
    }
}

impl<'a> VisitMut for Calls<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = e {
            if self.strs {
                let b = s.value().into_bytes().into_iter().map(|b| LitInt::new(&format!("{}u8", b), proc_macro2::Span::call_site()));
                *e = parse_quote!(vx_str(&[ #(#b),* ]));
                return;
            }
        }
        let Expr::MethodCall(m) = e else { return };
        let name = m.method.to_string();
        if let Some((many, one)) = &self.bytes {
            if name == *many && m.args.len() == 1 {
                if let Expr::Lit(ExprLit { lit: Lit::ByteStr(s), .. }) = &m.args[0] {
                    let one = format_ident!("{}", one);
                    let r = &m.receiver;
                    let b = s.value().into_iter().map(|b| LitInt::new(&format!("{}u8", b), proc_macro2::Span::call_site()));
                    *e = parse_quote!({ #( #r.#one(#b); )* });
                    return;
                }
            }
        }
        if Some(&name) == self.keys.as_ref() {
            if let Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) = m.args.first() {
                if s.value().len() <= 16 {
                    let v = s.value().bytes().fold(0u128, |a, b| a * 256 + b as u128);
                    let v = LitInt::new(&format!("0x{:x}u128", v), proc_macro2::Span::call_site());
                    m.args[0] = parse_quote!(#v);
                }
            }
            return;
        }
        let Some(h) = self.how.get(&name) else { return };
        let r = self.recv(&m.receiver);
        let args: Vec<Expr> = m.args.iter().cloned().collect();
        match h {
            How::Inline(ps, body) => {
                if args.len() != ps.len() {
                    return;
                }
                let mut map: Vec<(String, Expr)> = ps.iter().cloned().zip(args.into_iter().map(|a| match &a {
                    Expr::Path(_) => a,
                    _ => parse_quote!((#a)),
                })).collect();
                map.push(("self".into(), r));
                let mut b = (**body).clone();
                SelfTo { map }.visit_expr_mut(&mut b);
                *e = b;
            }
            How::Free => {
                let f = format_ident!("{}", name);
                *e = parse_quote!(#f(#r, #(#args),*));
            }
            How::On => {
                let f = format_ident!("{}", name);
                let (a, rest) = args.split_first().unwrap();
                *e = parse_quote!((#a).#f(#r, #(#rest),*));
            }
        }
    }
}

fn const_fn(it: &mut TraitItem) {
    if let TraitItem::Const(c) = it {
        let (id, ty) = (&c.ident, &c.ty);
        let f: TraitItemFn = match &c.default {
            Some((_, e)) => parse_quote!( fn #id() -> #ty { #e } ),
            None => parse_quote!( fn #id() -> #ty; ),
        };
        *it = TraitItem::Fn(f);
    }
}

/// `T::CONST` where the constant became a function
struct ConstCalls<'a>(&'a BTreeSet<String>);
impl<'a> VisitMut for ConstCalls<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Path(p) = e {
            if p.path.segments.len() + p.qself.is_some() as usize > 1 && self.0.contains(&p.path.segments.last().unwrap().ident.to_string()) {
                *e = parse_quote!( #p() );
            }
        }
    }
}

type Tails = BTreeMap<String, (Vec<String>, Block)>;

/// Is a method that was to be inlined still called?
struct Left<'a>(&'a Tails, Option<String>);
impl<'a, 'x> syn::visit::Visit<'x> for Left<'a> {
    fn visit_expr_method_call(&mut self, m: &'x ExprMethodCall) {
        if self.0.contains_key(&m.method.to_string()) {
            self.1 = Some(m.method.to_string());
        }
        syn::visit::visit_expr_method_call(self, m)
    }
}

fn in_tail_block(t: &Tails, b: &mut Block) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        in_tail(t, e)
    }
}

/// A call whose value is the value of the function is replaced by the statements of the method. A closure it is given is
/// called once, as the receiver of the last expression: what the closure returns goes on from there.
fn in_tail(t: &Tails, e: &mut Expr) {
    match e {
        Expr::Block(b) => in_tail_block(t, &mut b.block),
        Expr::Match(m) => m.arms.iter_mut().for_each(|a| in_tail(t, &mut a.body)),
        Expr::If(i) => {
            in_tail_block(t, &mut i.then_branch);
            if let Some((_, x)) = i.else_branch.as_mut() {
                in_tail(t, x)
            }
        }
        Expr::MethodCall(m) => {
            if let Some((ps, body)) = t.get(&m.method.to_string()) {
                if ps.len() == m.args.len() && crate::render::norm(&m.receiver) == "self" {
                    if let Some(n) = beta(ps, body, m.args.iter().cloned().collect()) {
                        *e = n;
                    }
                }
            }
        }
        _ => {}
    }
}

/// Own names for the variables of what is inlined.
struct Fresh(BTreeSet<String>);
impl VisitMut for Fresh {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if self.0.contains(&i.to_string()) {
            *i = format_ident!("vx_{}", i);
        }
    }
    fn visit_expr_field_mut(&mut self, f: &mut ExprField) {
        self.visit_expr_mut(&mut f.base)
    }
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        self.visit_expr_mut(&mut m.receiver);
        m.args.iter_mut().for_each(|a| self.visit_expr_mut(a));
    }
}

/// `return x` inside a closure
struct Returns<'a>(&'a dyn Fn(Expr) -> Expr);
impl<'a> VisitMut for Returns<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Return(r) = e {
            let v: Expr = match &r.expr {
                Some(x) => (**x).clone(),
                None => parse_quote!(()),
            };
            let v = (self.0)(v);
            *e = parse_quote!(return #v);
        }
    }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

fn beta(ps: &[String], body: &Block, args: Vec<Expr>) -> Option<Expr> {
    let mut names: BTreeSet<String> = ps.iter().cloned().collect();
    for s in &body.stmts {
        if let Stmt::Local(l) = s {
            match &l.pat {
                Pat::Ident(i) => names.insert(i.ident.to_string()),
                _ => return None,
            };
        }
    }
    let closure = args.iter().position(|a| matches!(a, Expr::Closure(_)))?;
    let mut b = body.clone();
    Fresh(names).visit_block_mut(&mut b);
    let build = format!("vx_{}", ps[closure]);
    let Stmt::Expr(tail, None) = b.stmts.pop()? else { return None };
    // BUILD(ARG).map(move |_| X)
    let Expr::MethodCall(m) = &tail else { return None };
    let Expr::Call(call) = &*m.receiver else { return None };
    if m.method != "map" || m.args.len() != 1 || call.args.len() != 1 || crate::render::norm(&call.func) != build {
        return None;
    }
    let Expr::Closure(k) = &m.args[0] else { return None };
    if !matches!(k.inputs.first(), Some(Pat::Wild(_))) {
        return None;
    }
    struct Uses(String, usize);
    impl<'x> syn::visit::Visit<'x> for Uses {
        fn visit_ident(&mut self, i: &'x Ident) {
            if *i == self.0 {
                self.1 += 1
            }
        }
    }
    let mut u = Uses(build.clone(), 0);
    syn::visit::Visit::visit_block(&mut u, &b);
    if u.1 > 0 {
        return None;
    }
    let last = (*k.body).clone();
    let go = move |x: Expr| -> Expr { parse_quote!( vx_then(#x, #last) ) };
    let Expr::Closure(c) = &args[closure] else { return None };
    let mut inner = (*c.body).clone();
    Returns(&go).visit_expr_mut(&mut inner);
    let mut lets: Vec<Stmt> = vec![];
    for (i, a) in args.iter().enumerate() {
        if i != closure {
            let p = format_ident!("vx_{}", ps[i]);
            lets.push(parse_quote!( let #p = #a; ));
        }
    }
    let stmts = &b.stmts;
    let arg = &call.args[0];
    let inner: Expr = match c.inputs.first()? {
        Pat::Wild(_) => inner,
        Pat::Ident(p) => {
            let p = &p.ident;
            match inner {
                Expr::Block(b) => {
                    let ss = &b.block.stmts;
                    parse_quote!({ let #p = #arg; #(#ss)* })
                }
                x => parse_quote!({ let #p = #arg; #x }),
            }
        }
        _ => return None,
    };
    let t = go(inner);
    Some(parse_quote!({ #(#lets)* #(#stmts)* #t }))
}

fn split_key(k: &str) -> (String, String) {
    let (a, b) = k.split_once("::").unwrap_or((k, ""));
    (a.trim().to_string(), b.trim().to_string())
}

/// Nested functions become functions of the module.
fn hoist(items: &mut Vec<Taken>) {
    struct H(Vec<ItemFn>);
    impl VisitMut for H {
        fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            let mut keep = vec![];
            for s in std::mem::take(&mut b.stmts) {
                match s {
                    Stmt::Item(Item::Fn(f)) => self.0.push(f),
                    s => keep.push(s),
                }
            }
            b.stmts = keep;
        }
    }
    let mut out = vec![];
    for t in items.iter_mut() {
        let mut h = H(vec![]);
        match &mut t.item {
            Item::Impl(i) => h.visit_item_impl_mut(i),
            Item::Fn(f) => h.visit_item_fn_mut(f),
            _ => {}
        }
        for f in h.0 {
            out.push(Taken { crate_: t.crate_.clone(), module: t.module.clone(), item: Item::Fn(f) });
        }
    }
    items.extend(out);
}

pub fn prepare(u: &Unit, mut items: Vec<Taken>) -> std::result::Result<Vec<Taken>, String> {
    if u.lifts.is_empty() && u.inlines.is_empty() && u.inherits.is_empty() && u.splits.is_empty() && !u.opts.contains_key("hoist") {
        return Ok(items);
    }
    if u.opts.contains_key("hoist") {
        hoist(&mut items);
    }
    let mut how: BTreeMap<String, How> = BTreeMap::new();
    let mut defaults: BTreeMap<String, TraitItemFn> = BTreeMap::new();
    for t in &items {
        if let Item::Trait(tr) = &t.item {
            for it in &tr.items {
                let mut it = it.clone();
                const_fn(&mut it);
                if let TraitItem::Fn(f) = &it {
                    defaults.insert(format!("{}::{}", tr.ident, f.sig.ident), f.clone());
                }
            }
        }
    }
    let overridden = |tr: &str, m: &str| {
        items.iter().any(|t| match &t.item {
            Item::Impl(i) => match &i.trait_ {
                Some((_, p, _)) => p.segments.last().unwrap().ident == tr && i.items.iter().any(|x| matches!(x, ImplItem::Fn(f) if f.sig.ident == m)),
                None => false,
            },
            _ => false,
        })
    };
    let mut tails: BTreeMap<String, (Vec<String>, Block)> = BTreeMap::new();
    for k in u.inlines.iter().chain(u.lifts.iter().map(|(k, _)| k)) {
        let (tr, m) = split_key(k);
        if overridden(&tr, &m) {
            return Err(format!("{} is overridden by an impl", k));
        }
        let f = defaults.get(k).and_then(|f| f.default.clone().map(|b| (f.clone(), b))).ok_or(format!("no default method {}", k))?;
        if u.inlines.contains(k) {
            let stmts: Vec<_> = f.1.stmts.iter().filter(|s| !matches!(s, Stmt::Item(Item::Use(_)))).cloned().collect();
            let body = match stmts.as_slice() {
                [Stmt::Expr(e, _)] => e.clone(),
                _ => {
                    let ps = f.0.sig.inputs.iter().skip(1).map(|a| match a {
                        FnArg::Typed(t) => crate::render::norm(&t.pat),
                        _ => String::new(),
                    }).collect();
                    tails.insert(m, (ps, f.1.clone()));
                    continue;
                }
            };
            let ps = f.0.sig.inputs.iter().skip(1).map(|a| match a {
                FnArg::Typed(t) => crate::render::norm(&t.pat),
                _ => String::new(),
            }).collect();
            how.insert(m, How::Inline(ps, Box::new(body)));
        } else {
            let on = u.lifts.iter().find(|(x, _)| x == k).unwrap().1.is_some();
            how.insert(m, if on { How::On } else { How::Free });
        }
    }
    // the lifted methods
    let mut lifted: Vec<Taken> = vec![];
    for (k, on) in &u.lifts {
        let (tr, m) = split_key(k);
        let f = defaults[k].clone();
        let body = f.default.clone().unwrap();
        let trid = format_ident!("{}", tr);
        let mut body2 = body.clone();
        SelfTo { map: vec![("self".into(), parse_quote!(vx_gen))] }.visit_block_mut(&mut body2);
        let mid = format_ident!("{}", m);
        let out = &f.sig.output;
        let rest: Vec<FnArg> = f.sig.inputs.iter().skip(1).cloned().collect();
        match on {
            None => {
                let lts: Vec<_> = f.sig.generics.lifetimes().cloned().collect();
                let item: ItemFn = parse_quote!( fn #mid < #(#lts,)* VxG: #trid > ( vx_gen: &mut VxG, #(#rest),* ) #out #body2 );
                lifted.push(Taken { crate_: String::new(), module: String::new(), item: Item::Fn(item) });
            }
            Some(on) => {
                let (ty, inst) = on.split_once(" T = ").ok_or("lift: on TYPE T = A; B")?;
                let first = match &rest[0] {
                    FnArg::Typed(t) => format_ident!("{}", crate::render::norm(&t.pat)),
                    _ => return Err("lift: parameter".into()),
                };
                let more = &rest[1..];
                let vt = format_ident!("Vx_{}", m);
                let t: ItemTrait = parse_quote!( pub trait #vt<G: #trid> { fn #mid(&self, vx_gen: &mut G, #(#more),*) #out; } );
                lifted.push(Taken { crate_: String::new(), module: String::new(), item: Item::Trait(t) });
                let stmts = &body2.stmts;
                for a in inst.split(';') {
                    let ty: Type = parse_str(&ty.replace(" T>", &format!(" {}>", a.trim()))).map_err(|e| e.to_string())?;
                    let i: ItemImpl = parse_quote!( impl<'ast, G: #trid> #vt<G> for #ty { fn #mid(&self, vx_gen: &mut G, #(#more),*) #out { let #first = self.vx_list(); #(#stmts)* } } );
                    lifted.push(Taken { crate_: String::new(), module: String::new(), item: Item::Impl(i) });
                }
            }
        }
    }
    // remove what was lifted or inlined; inherit; split
    let gone: BTreeSet<String> = u.inlines.iter().cloned().chain(u.lifts.iter().map(|(k, _)| k.clone())).collect();
    let mut out: Vec<Taken> = vec![];
    for mut t in items {
        let mut extra: Vec<Taken> = vec![];
        match &mut t.item {
            Item::Trait(tr) => {
                let name = tr.ident.to_string();
                tr.items.retain(|it| !matches!(it, TraitItem::Fn(f) if gone.contains(&format!("{}::{}", name, f.sig.ident))));
                if u.inherits.contains(&name) {
                    tr.items.iter_mut().for_each(const_fn);
                    for it in tr.items.iter_mut() {
                        if let TraitItem::Fn(f) = it {
                            f.default = None;
                            f.semi_token = Some(Default::default());
                        }
                    }
                }
                for (k, new) in &u.splits {
                    let (n, m) = split_key(k);
                    if n != name {
                        continue;
                    }
                    let f = defaults.get(k).ok_or(format!("no method {}", k))?;
                    let sig = &f.sig;
                    let id = format_ident!("{}", new);
                    let nt: ItemTrait = parse_quote!( pub trait #id { #sig; } );
                    tr.items.retain(|it| !matches!(it, TraitItem::Fn(f) if f.sig.ident == m));
                    extra.push(Taken { crate_: t.crate_.clone(), module: t.module.clone(), item: Item::Trait(nt) });
                }
            }
            Item::Impl(i) => {
                let tr = i.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string()).unwrap_or_default();
                if u.inherits.contains(&tr) {
                    for it in i.items.iter_mut() {
                        if let ImplItem::Const(c) = it {
                            let (id, ty, e) = (&c.ident, &c.ty, &c.expr);
                            *it = parse_quote!( fn #id() -> #ty { #e } );
                        }
                    }
                    for (k, f) in &defaults {
                        let (n, m) = split_key(k);
                        if n != tr || gone.contains(k) || i.items.iter().any(|x| matches!(x, ImplItem::Fn(f) if f.sig.ident == m)) {
                            continue;
                        }
                        if u.splits.iter().any(|(s, _)| s == k) {
                            continue;
                        }
                        if let Some(b) = &f.default {
                            let sig = &f.sig;
                            i.items.push(parse_quote!( #sig #b ));
                        }
                    }
                }
                for (k, new) in &u.splits {
                    let (n, m) = split_key(k);
                    if n != tr {
                        continue;
                    }
                    let own = i.items.iter().position(|x| matches!(x, ImplItem::Fn(f) if f.sig.ident == m));
                    let f: ImplItemFn = match own {
                        Some(p) => match i.items.remove(p) {
                            ImplItem::Fn(f) => f,
                            _ => unreachable!(),
                        },
                        None => {
                            let d = &defaults[k];
                            let (sig, b) = (&d.sig, d.default.as_ref().ok_or("split: no default")?);
                            parse_quote!( #sig #b )
                        }
                    };
                    let id = format_ident!("{}", new);
                    let mut ni = i.clone();
                    ni.items = vec![ImplItem::Fn(f)];
                    ni.trait_.as_mut().unwrap().1 = parse_quote!( #id );
                    // the parameters of the trait are no parameters of the new one
                    let key = tkey(&i.self_ty);
                    ni.generics.params = ni.generics.params.into_iter().filter(|g| match g {
                        GenericParam::Type(p) => key.split(|c: char| !c.is_alphanumeric() && c != '_').any(|x| p.ident == x),
                        _ => true,
                    }).collect();
                    ni.generics.where_clause = None;
                    for g in ni.generics.params.iter_mut() {
                        if let GenericParam::Type(p) = g {
                            p.bounds.clear();
                        }
                    }
                    extra.push(Taken { crate_: t.crate_.clone(), module: t.module.clone(), item: Item::Impl(ni) });
                }
            }
            _ => {}
        }
        out.push(t);
        out.extend(extra);
    }
    out.extend(lifted);
    // the calls
    let bytes = u.opts.get("bytes").and_then(|b| b.split_once(' ')).map(|(a, b)| (a.trim().to_string(), b.trim().to_string()));
    let strs = u.opts.contains_key("str_lits");
    let mut left: Option<String> = None;
    let mut consts: BTreeSet<String> = BTreeSet::new();
    for t in &out {
        if let Item::Trait(tr) = &t.item {
            if u.inherits.contains(&tr.ident.to_string()) {
                consts.extend(tr.items.iter().filter_map(|i| match i {
                    TraitItem::Fn(f) if !f.sig.ident.to_string().chars().any(|c| c.is_lowercase()) => Some(f.sig.ident.to_string()),
                    _ => None,
                }));
            }
        }
    }
    for t in out.iter_mut() {
        if !consts.is_empty() {
            ConstCalls(&consts).visit_item_mut(&mut t.item);
        }
        let name = item_name(&t.item);
        let _ = name;
        let mut go = |b: &mut Block| {
            if !tails.is_empty() {
                in_tail_block(&tails, b);
                let mut l = Left(&tails, None);
                syn::visit::Visit::visit_block(&mut l, b);
                if l.1.is_some() {
                    left = l.1;
                }
            }
            let mut c = Calls { how: &how, locals: mut_locals(b), bytes: bytes.clone(), strs, keys: u.opts.get("key_ids").cloned() };
            c.visit_block_mut(b)
        };
        match &mut t.item {
            Item::Fn(f) => go(&mut f.block),
            Item::Impl(i) => {
                for it in i.items.iter_mut() {
                    if let ImplItem::Fn(f) = it {
                        go(&mut f.block)
                    }
                }
            }
            Item::Trait(tr) => {
                for it in tr.items.iter_mut() {
                    if let TraitItem::Fn(f) = it {
                        if let Some(b) = f.default.as_mut() {
                            go(b)
                        }
                    }
                }
            }
            _ => {}
        }
    }
    if let Some(m) = left {
        return Err(format!("{} is called where its result is not the caller's", m));
    }
    Ok(out)
}
