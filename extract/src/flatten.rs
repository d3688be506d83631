//! Loads the crate, evaluates cfg attributes and flattens the modules.
use crate::Report;
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use syn::{Attribute, Item, Meta};

pub struct Entry {
    pub item: Item,
    pub origin: String,
}

pub fn cfg_true(meta: &Meta, f: &BTreeSet<String>) -> bool {
    match meta {
        Meta::Path(p) => p.is_ident("debug_assertions"),
        Meta::NameValue(nv) => {
            if nv.path.is_ident("feature") {
                if let syn::Expr::Lit(l) = &nv.value {
                    if let syn::Lit::Str(s) = &l.lit {
                        return f.contains(&s.value());
                    }
                }
            }
            if nv.path.is_ident("target_pointer_width") {
                if let syn::Expr::Lit(l) = &nv.value {
                    if let syn::Lit::Str(s) = &l.lit {
                        return s.value() == "64";
                    }
                }
            }
            false
        }
        Meta::List(l) => {
            let inner = l
                .parse_args_with(syn::punctuated::Punctuated::<Meta, syn::Token![,]>::parse_terminated)
                .unwrap_or_default();
            if l.path.is_ident("not") {
                inner.iter().next().map_or(false, |m| !cfg_true(m, f))
            } else if l.path.is_ident("any") {
                inner.iter().any(|m| cfg_true(m, f))
            } else if l.path.is_ident("all") {
                inner.iter().all(|m| cfg_true(m, f))
            } else {
                false
            }
        }
    }
}

/// Whether the attributes keep what they are attached to.
pub fn keep(attrs: &[Attribute], f: &BTreeSet<String>) -> bool {
    attrs.iter().all(|a| {
        if a.path().is_ident("cfg") {
            match a.parse_args::<Meta>() {
                Ok(m) => cfg_true(&m, f),
                Err(_) => true,
            }
        } else {
            !a.path().is_ident("test")
        }
    })
}

pub fn load(src: &Path, f: &BTreeSet<String>, report: &mut Report) -> Result<Vec<Entry>, String> {
    let mut out = vec![];
    file(&src.join("lib.rs"), src, src, f, &mut out, report)?;
    Ok(out)
}

fn file(
    path: &Path,
    dir: &Path,
    root: &Path,
    f: &BTreeSet<String>,
    out: &mut Vec<Entry>,
    report: &mut Report,
) -> Result<(), String> {
    let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {e}", path.display()))?;
    let mut parsed = syn::parse_file(&text).map_err(|e| format!("{}: {e}", path.display()))?;
    // private aliases of the same name in different modules
    let stem = path.file_stem().unwrap().to_string_lossy().replace('-', "_");
    for k in 0..parsed.items.len() {
        if let Item::Type(t) = &parsed.items[k] {
            if matches!(t.vis, syn::Visibility::Inherited) && keep(&t.attrs, f) && !report.aliases.insert(t.ident.to_string()) {
                let from = t.ident.to_string();
                let to = format!("{from}_{stem}");
                syn::visit_mut::VisitMut::visit_file_mut(&mut Alias(&from, &to), &mut parsed);
            }
        }
    }
    if stem == "rocksdb" {
        syn::visit_mut::VisitMut::visit_file_mut(&mut Rocks, &mut parsed);
    }
    let name = path.strip_prefix(root).unwrap().display().to_string();
    items(parsed.items, &name, dir, root, f, out, report)
}

fn items(
    list: Vec<Item>,
    name: &str,
    dir: &Path,
    root: &Path,
    f: &BTreeSet<String>,
    out: &mut Vec<Entry>,
    report: &mut Report,
) -> Result<(), String> {
    // hash adapters name the types and traits of other crates
    let adapter = name.starts_with("tree_hasher");
    let mut std_hasher = BTreeSet::new();
    for i in &list {
        if let Item::Use(u) = i {
            let t = quote::ToTokens::to_token_stream(&u.tree).to_string().replace(' ', "");
            if let Some(r) = t.strip_prefix("std::hash::Hasher") {
                std_hasher.insert(if let Some(a) = r.strip_prefix("as") { a.to_string() } else { "Hasher".to_string() });
            }
        }
    }
    for mut item in list {
        if adapter {
            syn::visit_mut::VisitMut::visit_item_mut(&mut Foreign(&std_hasher), &mut item);
        }
        let attrs: &[Attribute] = match &item {
            Item::Const(i) => &i.attrs,
            Item::Enum(i) => &i.attrs,
            Item::Fn(i) => &i.attrs,
            Item::Impl(i) => &i.attrs,
            Item::Mod(i) => &i.attrs,
            Item::Static(i) => &i.attrs,
            Item::Struct(i) => &i.attrs,
            Item::Trait(i) => &i.attrs,
            Item::Type(i) => &i.attrs,
            Item::Use(i) => &i.attrs,
            Item::Macro(i) => &i.attrs,
            _ => &[],
        };
        if !keep(attrs, f) {
            continue;
        }
        let serde = strip(&mut item, f);
        if serde && f.contains("serde") {
            let n = match &item {
                Item::Struct(s) => s.ident.to_string(),
                Item::Enum(s) => s.ident.to_string(),
                _ => "an item".to_string(),
            };
            report.unsupported.push(format!("derive for {n}: attributes of serde ({name})"));
        }
        match item {
            Item::Use(_) => {}
            Item::Mod(m) => {
                let id = m.ident.to_string();
                if let Some((_, content)) = m.content {
                    items(content, name, &dir.join(&id), root, f, out, report)?;
                } else {
                    let a: PathBuf = dir.join(format!("{id}.rs"));
                    let b = dir.join(&id).join("mod.rs");
                    let p = if a.exists() { a } else { b };
                    file(&p, &dir.join(&id), root, f, out, report)?;
                }
            }
            other => {
                let line = syn::spanned::Spanned::span(&other).start().line;
                out.push(Entry { item: other, origin: format!("{name}:{line}") });
            }
        }
    }
    Ok(())
}

/// `std::hash::Hasher`, by whatever name, is `StdHasher`; other crates' items are known by their own names.
struct Foreign<'a>(&'a BTreeSet<String>);
impl syn::visit_mut::VisitMut for Foreign<'_> {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        syn::visit_mut::visit_path_mut(self, p);
        let first = p.segments[0].ident.to_string();
        let full = p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
        if full.starts_with("std::hash::Hasher") {
            let rest: Vec<_> = p.segments.iter().skip(3).cloned().collect();
            p.segments = std::iter::once(syn::parse_quote!(StdHasher)).chain(rest).collect();
        } else if self.0.contains(&first) {
            p.segments[0] = syn::parse_quote!(StdHasher);
        } else if p.segments.len() > 1 && first != "crate" && first.chars().next().map_or(false, |c| c.is_ascii_lowercase()) {
            if let Some(k) = p.segments.iter().position(|s| s.ident.to_string().chars().next().unwrap().is_ascii_uppercase()) {
                p.segments = p.segments.iter().skip(k).cloned().collect();
            }
        }
    }
}

struct Alias<'a>(&'a str, &'a str);
impl syn::visit_mut::VisitMut for Alias<'_> {
    fn visit_item_type_mut(&mut self, t: &mut syn::ItemType) {
        if t.ident == self.0 {
            t.ident = syn::Ident::new(self.1, t.ident.span());
        }
        syn::visit_mut::visit_item_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        syn::visit_mut::visit_path_mut(self, p);
        if p.segments[0].ident == self.0 {
            p.segments[0].ident = syn::Ident::new(self.1, p.segments[0].ident.span());
        }
    }
}

/// Items of the crate `rocksdb` by their own names, its error type by one of its own.
struct Rocks;
impl syn::visit_mut::VisitMut for Rocks {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        syn::visit_mut::visit_path_mut(self, p);
        if p.segments.len() > 1 && p.segments[0].ident == "rocksdb" {
            p.segments = p.segments.iter().skip(1).cloned().collect();
            if p.segments[0].ident == "Error" {
                p.segments[0].ident = syn::Ident::new("RocksError", p.segments[0].ident.span());
            }
        }
    }
}

struct Strip<'a>(&'a BTreeSet<String>, bool);

/// Removes what cfg attributes exclude, and all attributes but derives.
impl syn::visit_mut::VisitMut for Strip<'_> {
    fn visit_attributes_mut(&mut self, attrs: &mut Vec<Attribute>) {
        let f = self.0;
        let mut extra = vec![];
        for a in attrs.iter() {
            // cfg_attr(pred, derive(..))
            if a.path().is_ident("cfg_attr") {
                if let Ok(ms) = a.parse_args_with(
                    syn::punctuated::Punctuated::<Meta, syn::Token![,]>::parse_terminated,
                ) {
                    let v: Vec<Meta> = ms.into_iter().collect();
                    if cfg_true(&v[0], f) {
                        for m in &v[1..] {
                            let at: Attribute = syn::parse_quote!(#[#m]);
                            extra.push(at);
                        }
                    }
                }
            }
        }
        attrs.extend(extra);
        self.1 |= attrs.iter().any(|a| a.path().is_ident("serde"));
        attrs.retain(|a| a.path().is_ident("derive"));
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let f = self.0;
        b.stmts.retain(|s| match s {
            syn::Stmt::Local(l) => keep(&l.attrs, f),
            syn::Stmt::Item(_) => true,
            syn::Stmt::Expr(e, _) => keep(expr_attrs(e), f),
            syn::Stmt::Macro(m) => keep(&m.attrs, f),
        });
        syn::visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_match_mut(&mut self, m: &mut syn::ExprMatch) {
        let f = self.0;
        m.arms.retain(|a| keep(&a.attrs, f));
        syn::visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_item_impl_mut(&mut self, i: &mut syn::ItemImpl) {
        let f = self.0;
        i.items.retain(|x| match x {
            syn::ImplItem::Fn(x) => keep(&x.attrs, f),
            syn::ImplItem::Const(x) => keep(&x.attrs, f),
            syn::ImplItem::Type(x) => keep(&x.attrs, f),
            _ => true,
        });
        syn::visit_mut::visit_item_impl_mut(self, i);
    }
    fn visit_item_trait_mut(&mut self, i: &mut syn::ItemTrait) {
        let f = self.0;
        i.items.retain(|x| match x {
            syn::TraitItem::Fn(x) => keep(&x.attrs, f),
            syn::TraitItem::Const(x) => keep(&x.attrs, f),
            syn::TraitItem::Type(x) => keep(&x.attrs, f),
            _ => true,
        });
        syn::visit_mut::visit_item_trait_mut(self, i);
    }
    fn visit_item_struct_mut(&mut self, i: &mut syn::ItemStruct) {
        let f = self.0;
        if let syn::Fields::Named(n) = &mut i.fields {
            let kept: Vec<syn::Field> = n.named.iter().filter(|x| keep(&x.attrs, f)).cloned().collect();
            n.named = kept.into_iter().collect();
        }
        syn::visit_mut::visit_item_struct_mut(self, i);
    }
}

pub fn expr_attrs(e: &syn::Expr) -> &[Attribute] {
    use syn::Expr::*;
    match e {
        Block(x) => &x.attrs,
        If(x) => &x.attrs,
        Match(x) => &x.attrs,
        While(x) => &x.attrs,
        ForLoop(x) => &x.attrs,
        Loop(x) => &x.attrs,
        MethodCall(x) => &x.attrs,
        Call(x) => &x.attrs,
        Assign(x) => &x.attrs,
        Return(x) => &x.attrs,
        Path(x) => &x.attrs,
        Struct(x) => &x.attrs,
        _ => &[],
    }
}

/// whether an attribute for serde was among what is left out
fn strip(item: &mut Item, f: &BTreeSet<String>) -> bool {
    let mut s = Strip(f, false);
    syn::visit_mut::VisitMut::visit_item_mut(&mut s, item);
    s.1
}
