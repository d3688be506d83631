//! Constants that Verus does not take (references, associated and local ones) are put in the place of their uses.
use crate::flatten::Entry;
use crate::norm::type_name;
use crate::Report;
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// (owner or empty, name) -> value
type Values = BTreeMap<(String, String), Expr>;

/// the value, with the type written into unsuffixed integer literals
fn value(ty: &Type, e: &Expr) -> Expr {
    let mut e = e.clone();
    if let Type::Path(p) = ty {
        let t = p.path.segments.last().unwrap().ident.to_string();
        if ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"].contains(&t.as_str()) {
            if let Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) = &e {
                if i.suffix().is_empty() {
                    let n = LitInt::new(&format!("{}{}", i.base10_digits(), t), i.span());
                    e = parse_quote!(#n);
                }
            }
        }
    }
    match e {
        Expr::Lit(_) | Expr::Path(_) | Expr::Paren(_) | Expr::Array(_) | Expr::Call(_) => e,
        Expr::Reference(_) => e,
        e => parse_quote!((#e)),
    }
}

struct Put<'a> {
    values: &'a Values,
    owner: String,
    local: Vec<BTreeMap<String, Expr>>,
    used: usize,
}

impl VisitMut for Put<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut here = BTreeMap::new();
        b.stmts.retain(|s| match s {
            Stmt::Item(Item::Const(c)) => {
                here.insert(c.ident.to_string(), value(&c.ty, &c.expr));
                false
            }
            _ => true,
        });
        self.local.push(here);
        visit_mut::visit_block_mut(self, b);
        self.local.pop();
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let mut depth = 0;
        while let Expr::Path(p) = e {
            let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let n = s.last().unwrap().clone();
            if !n.chars().next().map_or(false, |c| c.is_ascii_uppercase()) || depth > 8 {
                break;
            }
            let local = if s.len() == 1 { self.local.iter().rev().find_map(|m| m.get(&n)) } else { None };
            let owner = match s.len() {
                1 => String::new(),
                k if s[k - 2] == "Self" => self.owner.clone(),
                k => s[k - 2].clone(),
            };
            let v = local
                .or_else(|| self.values.get(&(owner.clone(), n.clone())))
                .or_else(|| if owner.chars().next().map_or(true, |c| c.is_ascii_lowercase()) { self.values.get(&(String::new(), n.clone())) } else { None });
            match v {
                Some(v) => {
                    *e = v.clone();
                    self.used += 1;
                }
                None => break,
            }
            depth += 1;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

pub fn run(entries: &mut Vec<Entry>, report: &mut Report) {
    let mut values = Values::new();
    entries.retain(|e| match &e.item {
        Item::Const(c) if matches!(&*c.ty, Type::Reference(_)) => {
            values.insert((String::new(), c.ident.to_string()), value(&c.ty, &c.expr));
            false
        }
        _ => true,
    });
    for e in entries.iter_mut() {
        if let Item::Impl(i) = &mut e.item {
            if i.trait_.is_none() {
                let owner = type_name(&i.self_ty);
                i.items.retain(|it| match it {
                    ImplItem::Const(c) => {
                        values.insert((owner.clone(), c.ident.to_string()), value(&c.ty, &c.expr));
                        false
                    }
                    _ => true,
                });
            }
        }
    }
    for e in entries.iter_mut() {
        let mut p = Put { values: &values, owner: String::new(), local: vec![], used: 0 };
        match &mut e.item {
            Item::Fn(f) => p.visit_block_mut(&mut f.block),
            Item::Impl(i) => {
                p.owner = type_name(&i.self_ty);
                for it in i.items.iter_mut() {
                    if let ImplItem::Fn(f) = it {
                        p.visit_block_mut(&mut f.block);
                    }
                }
            }
            _ => {}
        }
        for _ in 0..p.used {
            report.rw("constant to its value");
        }
    }
}
