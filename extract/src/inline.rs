//! Helpers without a contract: their bodies are put in the place of the calls.
//!
//! A call `h(a, ..)`, `Self::h(a, ..)` or `self.h(a, ..)` becomes `{ let p: T = a; ..; let vx_out: R = { body }; vx_out }`.
//! `?` and `return` in the body mean the caller's own when the call itself is directly under `?` (for errors) or is the
//! caller's result; early returns of values are first turned into `else` branches.  A call where neither holds is left.
use crate::flatten::Entry;
use crate::norm::type_name;
use crate::{Report, Wants};
use proc_macro2::TokenStream;
use quote::{format_ident, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
struct Helper {
    owner: String,
    sig: Signature,
    block: Block,
}

fn strip_lifetimes(t: &Type) -> Type {
    struct S;
    impl VisitMut for S {
        fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
            r.lifetime = None;
            visit_mut::visit_type_reference_mut(self, r);
        }
        fn visit_path_segment_mut(&mut self, s: &mut PathSegment) {
            if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                a.args = a.args.iter().filter(|x| !matches!(x, GenericArgument::Lifetime(_))).cloned().collect();
                if a.args.is_empty() {
                    s.arguments = PathArguments::None;
                    return;
                }
            }
            visit_mut::visit_path_segment_mut(self, s);
        }
    }
    let mut t = t.clone();
    S.visit_type_mut(&mut t);
    t
}

fn mentions(t: &impl ToTokens, names: &BTreeSet<String>) -> bool {
    fn go(ts: TokenStream, names: &BTreeSet<String>) -> bool {
        ts.into_iter().any(|x| match x {
            proc_macro2::TokenTree::Ident(i) => names.contains(&i.to_string()),
            proc_macro2::TokenTree::Group(g) => go(g.stream(), names),
            _ => false,
        })
    }
    go(t.to_token_stream(), names)
}

/// The exits of a body: `?`, `return Err(..)`, other returns.
#[derive(Default)]
struct Exits {
    question: usize,
    err: usize,
    other: usize,
}

fn is_err(e: &Expr) -> bool {
    matches!(e, Expr::Call(c) if c.func.to_token_stream().to_string() == "Err")
}

impl<'a> Visit<'a> for Exits {
    fn visit_expr_try(&mut self, t: &'a ExprTry) {
        self.question += 1;
        visit::visit_expr_try(self, t);
    }
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        match &r.expr {
            Some(e) if is_err(e) => self.err += 1,
            _ => self.other += 1,
        }
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
}

fn exits(b: &Block) -> Exits {
    let mut x = Exits::default();
    x.visit_block(b);
    x
}

/// Turns returns in tail positions into values.
fn settle(b: &mut Block) {
    // `if c { ..; return v; } rest` -> `if c { ..; v } else { rest }`
    let mut k = 0;
    while k < b.stmts.len() {
        let last = k + 1 == b.stmts.len();
        let early = match &b.stmts[k] {
            Stmt::Expr(Expr::If(i), _) if i.else_branch.is_none() && !last => {
                matches!(i.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)))
                    && exits(&i.then_branch).other > 0
            }
            _ => false,
        };
        if early {
            let rest: Vec<Stmt> = b.stmts.drain(k + 1..).collect();
            if let Stmt::Expr(Expr::If(i), semi) = &mut b.stmts[k] {
                let rest: Block = Block { brace_token: Default::default(), stmts: rest };
                i.else_branch = Some((Default::default(), Box::new(parse_quote!(#rest))));
                *semi = None;
            }
        }
        k += 1;
    }
    if let Some(s) = b.stmts.last_mut() {
        if let Stmt::Expr(e, semi) = s {
            if matches!(e, Expr::Return(_)) || semi.is_none() {
                if let Expr::Return(r) = e {
                    *e = match &r.expr {
                        Some(x) => (**x).clone(),
                        None => parse_quote!(()),
                    };
                    *semi = None;
                }
                settle_expr(e);
            }
        }
    }
}

fn settle_expr(e: &mut Expr) {
    match e {
        Expr::Return(r) => {
            let x = match &r.expr {
                Some(x) => (**x).clone(),
                None => parse_quote!(()),
            };
            *e = x;
            settle_expr(e);
        }
        Expr::If(i) => {
            settle(&mut i.then_branch);
            if let Some((_, x)) = &mut i.else_branch {
                settle_expr(x);
            }
        }
        Expr::Block(b) if b.label.is_none() => settle(&mut b.block),
        Expr::Match(m) => {
            for a in m.arms.iter_mut() {
                settle_expr(&mut a.body);
            }
        }
        Expr::Paren(p) => settle_expr(&mut p.expr),
        _ => {}
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Place {
    Value,
    Question,
    Result,
}

struct Inliner<'a> {
    helpers: &'a BTreeMap<(String, String), Helper>,
    owner: String,
    output: String,
    done: BTreeSet<(String, String)>,
    depth: usize,
    fresh: usize,
}

impl Inliner<'_> {
    fn body(&mut self, b: &mut Block) {
        self.block_at(b, Place::Result);
    }

    fn block_at(&mut self, b: &mut Block, p: Place) {
        let n = b.stmts.len();
        for (k, s) in b.stmts.iter_mut().enumerate() {
            match s {
                Stmt::Expr(e, None) if k + 1 == n => self.expr_at(e, p),
                s => self.visit_stmt_mut(s),
            }
        }
    }

    fn expr_at(&mut self, e: &mut Expr, p: Place) {
        match e {
            Expr::Block(b) if b.label.is_none() => self.block_at(&mut b.block, p),
            Expr::If(i) => {
                self.visit_expr_mut(&mut i.cond);
                self.block_at(&mut i.then_branch, p);
                if let Some((_, x)) = &mut i.else_branch {
                    self.expr_at(x, p);
                }
            }
            Expr::Match(m) => {
                self.visit_expr_mut(&mut m.expr);
                for a in m.arms.iter_mut() {
                    if let Some((_, g)) = &mut a.guard {
                        self.visit_expr_mut(g);
                    }
                    self.expr_at(&mut a.body, p);
                }
            }
            Expr::Call(_) | Expr::MethodCall(_) => {
                self.arguments(e);
                self.call(e, p);
            }
            Expr::Return(_) => self.visit_expr_mut(e),
            _ => self.visit_expr_mut(e),
        }
    }

    fn arguments(&mut self, e: &mut Expr) {
        match e {
            Expr::Call(c) => c.args.iter_mut().for_each(|a| self.visit_expr_mut(a)),
            Expr::MethodCall(m) => {
                self.visit_expr_mut(&mut m.receiver);
                m.args.iter_mut().for_each(|a| self.visit_expr_mut(a));
            }
            _ => {}
        }
    }

    fn call(&mut self, e: &mut Expr, place: Place) {
        let (key, args, recv): ((String, String), Vec<Expr>, Option<Expr>) = match e {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return };
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let name = segs.last().unwrap().clone();
                let owner = if segs.len() == 1 {
                    String::new()
                } else {
                    let o = segs[segs.len() - 2].clone();
                    if o == "Self" { self.owner.clone() } else { o }
                };
                let free = (String::new(), name.clone());
                let own = (owner, name);
                let key = if self.helpers.contains_key(&own) { own } else { free };
                (key, c.args.iter().cloned().collect(), None)
            }
            Expr::MethodCall(m) => {
                if m.receiver.to_token_stream().to_string() != "self" {
                    return;
                }
                ((self.owner.clone(), m.method.to_string()), m.args.iter().cloned().collect(), Some((*m.receiver).clone()))
            }
            _ => return,
        };
        let Some(h) = self.helpers.get(&key).cloned() else { return };
        if self.depth > 4 || (recv.is_some() != h.sig.receiver().is_some()) {
            return;
        }
        let mut block = h.block.clone();
        // the helper's own names
        if !h.owner.is_empty() && h.owner != self.owner && mentions(&block, &["Self".to_string()].into()) {
            return;
        }
        let ret: Option<Type> = match &h.sig.output {
            ReturnType::Default => None,
            ReturnType::Type(_, t) => Some(strip_lifetimes(t)),
        };
        let rtext = ret.as_ref().map(|t| t.to_token_stream().to_string()).unwrap_or_default();
        let whole = place == Place::Result && rtext == self.output;
        if !whole {
            settle(&mut block);
        }
        let x = exits(&block);
        let same_errors = |t: &str| {
            t.starts_with("BinaryMerkleTreeResult ") || t.starts_with("Result ") && t.ends_with(", Exception >")
        };
        let fallible = same_errors(&rtext) && same_errors(&self.output);
        let fine = whole
            || x.other == 0 && x.question + x.err == 0
            || x.other == 0 && fallible && (place == Place::Question || place == Place::Result);
        if !fine {
            return;
        }
        let mut generic: BTreeSet<String> = h.sig.generics.type_params().map(|p| p.ident.to_string()).collect();
        generic.extend(h.sig.generics.const_params().map(|p| p.ident.to_string()).filter(|n| n != "N"));
        if mentions(&block, &generic) {
            return;
        }
        // parameters
        let mut first: Vec<Stmt> = vec![];
        let mut second: Vec<Stmt> = vec![];
        let params: Vec<&PatType> = h
            .sig
            .inputs
            .iter()
            .filter_map(|a| if let FnArg::Typed(t) = a { Some(t) } else { None })
            .collect();
        if params.len() != args.len() {
            return;
        }
        let names: BTreeSet<String> = {
            struct N(BTreeSet<String>);
            impl<'a> Visit<'a> for N {
                fn visit_pat_ident(&mut self, p: &'a PatIdent) {
                    self.0.insert(p.ident.to_string());
                }
            }
            let mut n = N(BTreeSet::new());
            params.iter().for_each(|p| n.visit_pat(&p.pat));
            n.0
        };
        let clash = args.iter().any(|a| mentions(a, &names));
        for (p, a) in params.iter().zip(&args) {
            let ty = strip_lifetimes(&p.ty);
            let typed = !mentions(&ty, &generic) && !matches!(ty, Type::ImplTrait(_));
            let pat = &p.pat;
            if let Pat::Ident(i) = &**pat {
                if i.mutability.is_none() && i.ident.to_string() == a.to_token_stream().to_string() && !matches!(ty, Type::Reference(_)) {
                    continue;
                }
            }
            if clash {
                self.fresh += 1;
                let t = format_ident!("vx_a{}", self.fresh);
                first.push(if typed { parse_quote!(let #t: #ty = #a;) } else { parse_quote!(let #t = #a;) });
                second.push(if typed { parse_quote!(let #pat: #ty = #t;) } else { parse_quote!(let #pat = #t;) });
            } else {
                first.push(if typed { parse_quote!(let #pat: #ty = #a;) } else { parse_quote!(let #pat = #a;) });
            }
        }
        // helpers of the helper
        let (owner, output) = (self.owner.clone(), self.output.clone());
        if !h.owner.is_empty() {
            self.owner = h.owner.clone();
        }
        self.depth += 1;
        if whole {
            self.block_at(&mut block, Place::Result);
        } else {
            self.block_at(&mut block, Place::Value);
        }
        self.depth -= 1;
        self.owner = owner;
        self.output = output;
        self.done.insert(key);
        let unit = block.stmts.last().map_or(true, |s| !matches!(s, Stmt::Expr(_, None)));
        *e = if whole {
            parse_quote!({ #(#first)* #(#second)* #block })
        } else {
            match ret {
                Some(t) if !mentions(&t, &generic) => parse_quote!({ #(#first)* #(#second)* let vx_out: #t = #block; vx_out }),
                None if unit => parse_quote!({ #(#first)* #(#second)* #block }),
                _ => parse_quote!({ #(#first)* #(#second)* let vx_out = #block; vx_out }),
            }
        };
    }
}

impl VisitMut for Inliner<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Try(t) => {
                if matches!(&*t.expr, Expr::Call(_) | Expr::MethodCall(_)) {
                    self.arguments(&mut t.expr);
                    self.call(&mut t.expr, Place::Question);
                    return;
                }
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    if matches!(&**x, Expr::Call(_) | Expr::MethodCall(_)) {
                        self.arguments(x);
                        self.call(x, Place::Result);
                        return;
                    }
                }
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::Call(_) | Expr::MethodCall(_) => {
                self.arguments(e);
                self.call(e, Place::Value);
            }
            Expr::Closure(_) => {}
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

struct Calls<'a>(&'a BTreeSet<String>, BTreeSet<String>);
impl Calls<'_> {
    fn look(&mut self, ts: TokenStream) {
        for x in ts {
            match x {
                proc_macro2::TokenTree::Ident(i) => {
                    let i = i.to_string();
                    if self.0.contains(&i) {
                        self.1.insert(i);
                    }
                }
                proc_macro2::TokenTree::Group(g) => self.look(g.stream()),
                _ => {}
            }
        }
    }
}

pub fn run(entries: &mut Vec<Entry>, wants: &Wants, report: &mut Report) {
    let mut helpers: BTreeMap<(String, String), Helper> = BTreeMap::new();
    let mut seen: BTreeMap<(String, String), usize> = BTreeMap::new();
    for e in entries.iter() {
        match &e.item {
            Item::Fn(f) => {
                let k = (String::new(), f.sig.ident.to_string());
                *seen.entry(k.clone()).or_default() += 1;
                if !wants.specs.contains(&k.1) && k.1 != "main" {
                    helpers.insert(k, Helper { owner: String::new(), sig: f.sig.clone(), block: (*f.block).clone() });
                }
            }
            Item::Impl(i) if i.trait_.is_none() => {
                let owner = type_name(&i.self_ty);
                for it in &i.items {
                    if let ImplItem::Fn(f) = it {
                        let k = (owner.clone(), f.sig.ident.to_string());
                        *seen.entry(k.clone()).or_default() += 1;
                        if !wants.specs.contains(&format!("{}::{}", k.0, k.1)) && owner != "Array" {
                            helpers.insert(k, Helper { owner: owner.clone(), sig: f.sig.clone(), block: f.block.clone() });
                        }
                    }
                }
            }
            _ => {}
        }
    }
    helpers.retain(|k, h| seen[k] == 1 && !mentions(&h.block, &[k.1.clone()].into()));
    if helpers.is_empty() {
        return;
    }
    let mut done = BTreeSet::new();
    let mut go = |owner: &str, sig: &Signature, block: &mut Block| {
        let output = match &sig.output {
            ReturnType::Default => String::new(),
            ReturnType::Type(_, t) => strip_lifetimes(t).to_token_stream().to_string(),
        };
        let mut i = Inliner { helpers: &helpers, owner: owner.to_string(), output, done: BTreeSet::new(), depth: 0, fresh: 0 };
        i.body(block);
        done.extend(i.done);
    };
    for e in entries.iter_mut() {
        match &mut e.item {
            Item::Fn(f) => {
                if !helpers.contains_key(&(String::new(), f.sig.ident.to_string())) {
                    let mut b = (*f.block).clone();
                    go("", &f.sig, &mut b);
                    f.block = Box::new(b);
                }
            }
            Item::Impl(i) => {
                let owner = type_name(&i.self_ty);
                let inherent = i.trait_.is_none();
                for it in i.items.iter_mut() {
                    if let ImplItem::Fn(f) = it {
                        if !(inherent && helpers.contains_key(&(owner.clone(), f.sig.ident.to_string()))) {
                            let sig = f.sig.clone();
                            go(&owner, &sig, &mut f.block);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    // those no longer called are gone
    let names: BTreeSet<String> = done.iter().map(|k| k.1.clone()).collect();
    let mut c = Calls(&names, BTreeSet::new());
    for e in entries.iter() {
        match &e.item {
            Item::Fn(f) => {
                if !done.contains(&(String::new(), f.sig.ident.to_string())) {
                    c.look(f.block.to_token_stream());
                }
            }
            Item::Impl(i) => {
                let owner = type_name(&i.self_ty);
                for it in &i.items {
                    if let ImplItem::Fn(f) = it {
                        if i.trait_.is_some() || !done.contains(&(owner.clone(), f.sig.ident.to_string())) {
                            c.look(f.block.to_token_stream());
                        }
                    }
                }
            }
            _ => {}
        }
    }
    let still = c.1;
    for k in &done {
        report.inlined.push(if k.0.is_empty() { k.1.clone() } else { format!("{}::{}", k.0, k.1) });
    }
    let gone = |owner: &str, name: &Ident| done.contains(&(owner.to_string(), name.to_string())) && !still.contains(&name.to_string());
    entries.retain(|e| !matches!(&e.item, Item::Fn(f) if gone("", &f.sig.ident)));
    for e in entries.iter_mut() {
        if let Item::Impl(i) = &mut e.item {
            if i.trait_.is_none() {
                let owner = type_name(&i.self_ty);
                i.items.retain(|it| !matches!(it, ImplItem::Fn(f) if gone(&owner, &f.sig.ident)));
            }
        }
    }
    report.rw("helper without a contract put in place of its calls");
}
