//! Rewrites what Verus does not read into equivalent code that it does. Every rewrite is counted in the report.
use crate::flatten::Entry;
use crate::{anchors, Report, Wants};
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// Traits of the crate whose implementations are verified; other implementations are dropped.
const KEPT_TRAITS: &[&str] =
    &["Branch", "Leaf", "Data", "Node", "Database", "Hasher", "Encode", "Decode", "MerkleTree"];

/// A type that both configures a `MerkleBIT` and contains one is a cycle to Verus. The two roles are
/// told apart: `X_Cfg` implements `MerkleTree`, `X` is the structure.
fn split_configs(entries: Vec<Entry>, report: &mut Report) -> Vec<Entry> {
    let cfgs: std::collections::BTreeSet<String> = entries
        .iter()
        .filter_map(|e| match &e.item {
            Item::Impl(i) if i.trait_.as_ref().map_or(false, |t| t.1.segments.last().unwrap().ident == "MerkleTree") => {
                Some(type_name(&i.self_ty))
            }
            _ => None,
        })
        .collect();
    struct V<'a> {
        cfgs: &'a std::collections::BTreeSet<String>,
        this: Option<Type>,
    }
    impl V<'_> {
        fn cfg(&self, t: &Type) -> Option<Type> {
            if let Type::Path(p) = t {
                let mut p = p.clone();
                let l = p.path.segments.last_mut().unwrap();
                if l.ident == "Self" {
                    return self.this.clone();
                }
                if self.cfgs.contains(&l.ident.to_string()) {
                    l.ident = format_ident!("{}_Cfg", l.ident);
                    return Some(Type::Path(p));
                }
            }
            None
        }
    }
    impl VisitMut for V<'_> {
        fn visit_path_mut(&mut self, p: &mut Path) {
            for s in p.segments.iter_mut() {
                if s.ident == "MerkleBIT" {
                    if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                        for g in a.args.iter_mut() {
                            if let GenericArgument::Type(t) = g {
                                if let Some(n) = self.cfg(t) {
                                    *t = n;
                                }
                            }
                        }
                    }
                }
            }
            visit_mut::visit_path_mut(self, p);
        }
        fn visit_type_path_mut(&mut self, t: &mut TypePath) {
            if let Some(q) = &mut t.qself {
                if q.as_token.is_some() && t.path.segments[0].ident == "MerkleTree" {
                    if let Some(n) = self.cfg(&q.ty) {
                        *q.ty = n;
                    }
                }
            }
            visit_mut::visit_type_path_mut(self, t);
        }
    }
    let mut out = vec![];
    for mut e in entries {
        let mut this = None;
        if let Item::Impl(i) = &e.item {
            let v = V { cfgs: &cfgs, this: None };
            this = v.cfg(&i.self_ty);
        }
        let mut v = V { cfgs: &cfgs, this };
        match &mut e.item {
            Item::Impl(i) if i.trait_.as_ref().map_or(false, |t| t.1.segments.last().unwrap().ident == "MerkleTree") => {
                if let Some(n) = v.this.clone() {
                    *i.self_ty = n;
                    report.rw("configuration type split off");
                }
            }
            it => v.visit_item_mut(it),
        }
        let mut extra = None;
        if let Item::Struct(s) = &e.item {
            if cfgs.contains(&s.ident.to_string()) {
                let mut c = s.clone();
                c.ident = format_ident!("{}_Cfg", s.ident);
                c.attrs.clear();
                let tys: Vec<Ident> = c.generics.type_params().map(|t| t.ident.clone()).collect();
                c.fields = Fields::Named(parse_quote!({ _c: std::marker::PhantomData<(#(#tys,)*)> }));
                c.semi_token = None;
                extra = Some(Entry { item: Item::Struct(c), origin: e.origin.clone() });
            }
        }
        out.push(e);
        out.extend(extra);
    }
    out
}

pub fn run(entries: Vec<Entry>, wants: &Wants, report: &mut Report) -> Vec<Entry> {
    let mut entries = split_configs(entries, report);
    if !wants.only.is_empty() {
        entries.retain(|e| {
            let name = match &e.item {
                Item::Trait(t) => format!("trait {}", t.ident),
                Item::Enum(t) => format!("enum {}", t.ident),
                Item::Struct(t) => format!("struct {}", t.ident),
                Item::Impl(i) => i.trait_.as_ref().map_or(String::new(), |t| format!("impl {}", t.1.segments.last().unwrap().ident)),
                _ => String::new(),
            };
            wants.only.contains(&name) || wants.only.iter().any(|o| e.origin.starts_with(o.as_str()))
        });
    }
    crate::consts::run(&mut entries, report);
    crate::inline::run(&mut entries, wants, report);
    let mut out = vec![];
    let serde = wants.only.contains("serde");
    let known: std::collections::BTreeSet<String> = entries
        .iter()
        .filter_map(|e| match &e.item {
            Item::Struct(s) => Some(s.ident.to_string()),
            Item::Enum(s) => Some(s.ident.to_string()),
            _ => None,
        })
        .collect();
    for e in entries {
        let origin = e.origin.clone();
        match e.item {
            Item::Const(mut c) => {
                c.vis = parse_quote!(pub);
                out.push(Entry { item: Item::Const(c), origin });
            }
            Item::Static(_) | Item::Macro(_) => report.dropped.push(format!("item at {origin}")),
            Item::Type(mut t) => {
                let id = t.ident.to_string();
                if id == "Array" || wants.drop.contains(&id) {
                    report.dropped.push(format!("type alias {id} ({origin}): given by the prelude"));
                    continue;
                }
                t.vis = parse_quote!(pub);
                t.attrs.clear();
                Types(report).visit_item_type_mut(&mut t);
                out.push(Entry { item: Item::Type(t), origin });
            }
            Item::Struct(mut s) => {
                let id = s.ident.to_string();
                if id == "Array" || id == "ArrayVisitor" && !serde || wants.drop.contains(&id) {
                    report.dropped.push(format!("struct {id} ({origin})"));
                    continue;
                }
                s.vis = parse_quote!(pub);
                for f in s.fields.iter_mut() {
                    f.vis = parse_quote!(pub);
                    f.attrs.clear();
                }
                let d = derives(&s.attrs);
                let wire = serde.then(|| derive_wire(&s.ident, &s.generics, &d, struct_wire(&s), report)).unwrap_or_default();
                s.attrs.clear();
                let copy = d.contains(&"Copy".to_string());
                if copy {
                    s.attrs.push(parse_quote!(#[derive(Clone, Copy)]));
                }
                fix_types_struct(&mut s, report);
                let clone = (!copy && d.contains(&"Clone".to_string()) && !matches!(s.fields, Fields::Unnamed(_))).then(|| derive_clone(&s));
                let default = d.contains(&"Default".to_string()).then(|| derive_default(&s));
                let o2 = origin.clone();
                out.push(Entry { item: Item::Struct(s), origin });
                for (x, n) in [(clone, "Clone"), (default, "Default")] {
                    if let Some(i) = x {
                        report.rw(&format!("derive({n}) expanded"));
                        if let Item::Impl(i) = i {
                            push_impl(i, o2.clone(), wants, report, &mut out);
                        }
                    }
                }
                out.extend(wire.into_iter().map(|item| Entry { item, origin: o2.clone() }));
            }
            Item::Enum(mut s) => {
                let id = s.ident.to_string();
                s.vis = parse_quote!(pub);
                let d = derives(&s.attrs);
                let wire = serde.then(|| derive_wire(&s.ident, &s.generics, &d, enum_wire(&s), report)).unwrap_or_default();
                s.attrs.clear();
                if d.contains(&"Copy".to_string()) && s.generics.type_params().next().is_none() {
                    s.attrs.push(parse_quote!(#[derive(Clone, Copy)]));
                }
                let clone = (d.contains(&"Clone".to_string()) && s.generics.type_params().next().is_some())
                    .then(|| derive_clone_enum(&s));
                for v in s.variants.iter_mut() {
                    v.attrs.clear();
                }
                let _ = id;
                let o2 = origin.clone();
                out.push(Entry { item: Item::Enum(s), origin });
                if let Some(Item::Impl(i)) = clone {
                    report.rw("derive(Clone) expanded");
                    push_impl(i, o2.clone(), wants, report, &mut out);
                }
                out.extend(wire.into_iter().map(|item| Entry { item, origin: o2.clone() }));
            }
            Item::Trait(mut t) => {
                let id = t.ident.to_string();
                t.vis = parse_quote!(pub);
                t.attrs.clear();
                if !t.supertraits.iter().any(|b| b.to_token_stream().to_string() == "Sized") {
                    t.supertraits.push(parse_quote!(Sized));
                    report.rw("trait: Sized");
                }
                for it in t.items.iter_mut() {
                    if let TraitItem::Fn(f) = it {
                        f.attrs.clear();
                        let fid = format!("trait {}::{}", id, f.sig.ident);
                        let mut body = f.default.clone();
                        function(&fid, &mut f.sig, body.as_mut(), wants, report, &BTreeMap::new());
                        match body {
                            Some(b) => {
                                f.default = Some(b);
                                f.semi_token = None;
                            }
                            None if wants.specs.contains(&fid) => {
                                f.default = Some(parse_quote!({ vx_spec!(#fid); vx_nobody!(); }));
                                f.semi_token = None;
                            }
                            None => {}
                        }
                    }
                    if let TraitItem::Type(t) = it {
                        t.attrs.clear();
                    }
                }
                let bid = format!("trait {id}");
                if wants.bodies.contains(&bid) {
                    t.items.insert(0, parse_quote!(vx_item!(#bid);));
                }
                out.push(Entry { item: Item::Trait(t), origin });
            }
            Item::Fn(mut f) => {
                let fid = f.sig.ident.to_string();
                if fid == "main" {
                    continue;
                }
                f.attrs.clear();
                f.vis = parse_quote!(pub);
                f.sig.constness = None;
                let mut b = (*f.block).clone();
                function(&fid, &mut f.sig, Some(&mut b), wants, report, &BTreeMap::new());
                f.block = Box::new(b);
                attrs_for(&fid, &mut f.attrs, &mut f.block, wants);
                out.push(Entry { item: Item::Fn(f), origin });
            }
            Item::Impl(i) => {
                let ty = i.self_ty.to_token_stream().to_string();
                let base = type_name(&i.self_ty);
                if let Some((_, p, _)) = &i.trait_ {
                    let tn = p.segments.last().unwrap().ident.to_string();
                    let keep = KEPT_TRAITS.contains(&tn.as_str()) && known.contains(&base) && base != "Array"
                        || tn == "From" && base == "Exception"
                        || tn == "Default" && known.contains(&base) && base != "Array" && base != "Exception"
                        || (tn == "PartialOrd" || tn == "Ord") && base == "TreeRef"
                        || (tn == "Encode" || tn == "Decode") && base == "Vec"
                        || tn == "Hasher"
                        || serde && (base == "Array" || base == "ArrayVisitor") && ["Serialize", "Deserialize", "Visitor"].contains(&tn.as_str());
                    if !keep || wants.drop.contains(&format!("{tn} for {base}")) {
                        report.dropped.push(format!("impl {tn} for {ty} ({origin})"));
                        continue;
                    }
                } else if base == "Array" {
                    report.dropped.push(format!("impl {ty} ({origin})"));
                    continue;
                }
                push_impl(i, origin, wants, report, &mut out);
            }
            other => {
                report.dropped.push(format!("item at {origin}: {}", other.to_token_stream().to_string().chars().take(40).collect::<String>()));
            }
        }
    }
    out
}

/// Of a function set aside only the signature and the contract are kept.
fn attrs_for(fid: &str, attrs: &mut Vec<Attribute>, block: &mut Block, wants: &Wants) {
    if wants.external.contains(fid) {
        block.stmts.retain(|s| matches!(s, Stmt::Macro(m) if m.mac.path.is_ident("vx_spec")));
        block.stmts.push(Stmt::Expr(parse_quote!(unimplemented!()), None));
        attrs.push(parse_quote!(#[verifier::external_body]));
    }
}

pub fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => type_name(&r.elem),
        _ => t.to_token_stream().to_string(),
    }
}

fn push_impl(mut i: ItemImpl, origin: String, wants: &Wants, report: &mut Report, out: &mut Vec<Entry>) {
    let base = type_name(&i.self_ty);
    let mut prefix = base.clone();
    let mut tname = String::new();
    if let Some((_, p, _)) = &i.trait_ {
        tname = p.segments.last().unwrap().ident.to_string();
        prefix = format!("{tname} for {base}");
        if tname == "From" {
            let arg = p.segments.last().unwrap().arguments.to_token_stream().to_string();
            prefix = format!("From{} for {base}", arg.replace(' ', ""));
        }
    }
    i.attrs.clear();
    // names of types for the environment
    let mut consts = vec![];
    for it in i.items.drain(..) {
        match it {
            ImplItem::Fn(mut f) => {
                let fid = if tname == "PartialOrd" || tname == "Ord" {
                    format!("{base}::{}", f.sig.ident)
                } else {
                    format!("{prefix}::{}", f.sig.ident)
                };
                if tname == "Visitor" && f.sig.ident == "expecting" {
                    report.dropped.push(format!("{fid}: the text of an error message"));
                    continue;
                }
                f.attrs.clear();
                f.sig.constness = None;
                if i.trait_.is_none() || tname == "PartialOrd" || tname == "Ord" || tname == "Default" {
                    f.vis = parse_quote!(pub);
                }
                if tname == "From" {
                    f.attrs.push(parse_quote!(#[verifier::external_body]));
                    report.rw("conversion into Exception trusted");
                    consts.push(ImplItem::Fn(f));
                    continue;
                }
                function(&fid, &mut f.sig, Some(&mut f.block), wants, report, &BTreeMap::new());
                attrs_for(&fid, &mut f.attrs, &mut f.block, wants);
                consts.push(ImplItem::Fn(f));
            }
            ImplItem::Type(mut t) => {
                t.attrs.clear();
                consts.push(ImplItem::Type(t));
            }
            other => consts.push(other),
        }
    }
    if wants.bodies.contains(&format!("impl {prefix}")) {
        let bid = format!("impl {prefix}");
        consts.insert(0, parse_quote!(vx_item!(#bid);));
    }
    i.items = consts;
    if tname == "PartialOrd" || tname == "Ord" {
        report.rw("implementation of Ord as inherent functions");
        i.trait_ = None;
    }
    if tname == "Default" {
        i.trait_ = None;
    }
    let mut item = Item::Impl(i);
    Types(report).visit_item_mut(&mut item);
    out.push(Entry { item, origin });
}

fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                v.push(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    v
}

fn fix_types_struct(s: &mut ItemStruct, report: &mut Report) {
    Types(report).visit_item_struct_mut(s);
}

/// Opaque types.
struct Types<'a>(&'a mut Report);
impl VisitMut for Types<'_> {
    fn visit_type_path_mut(&mut self, t: &mut TypePath) {
        visit_mut::visit_type_path_mut(self, t);
        if t.path.is_ident("Path") {
            t.path = parse_quote!(VxPath);
            self.0.rw("type Path made opaque");
        }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        // crate::a::b::C -> C
        if p.segments.len() > 1 && (p.segments[0].ident == "crate" || p.segments[0].ident == "super") {
            let last = p.segments.last().unwrap().clone();
            p.segments = std::iter::once(last).collect();
            p.leading_colon = None;
        }
    }
}

/// What the derived encoding says of a value (`sv`), which encodings it takes, what it makes of them.
struct WireSpec {
    sv: TokenStream,
    fits: TokenStream,
    reads: TokenStream,
    same: TokenStream,
    below: TokenStream,
    lemma: TokenStream,
}

fn struct_wire(s: &ItemStruct) -> Option<WireSpec> {
    let Fields::Named(_) = &s.fields else { return None };
    let n: Vec<_> = s.fields.iter().map(|f| f.ident.clone().unwrap()).collect();
    let l: Vec<_> = n.iter().map(|i| i.to_string()).collect();
    let t: Vec<_> = s.fields.iter().map(|f| f.ty.clone()).collect();
    let k: Vec<_> = (0..n.len()).map(|i| LitInt::new(&i.to_string(), proc_macro2::Span::call_site())).collect();
    let len = LitInt::new(&n.len().to_string(), proc_macro2::Span::call_site());
    Some(WireSpec {
        sv: quote!(SV::Rec(seq![#((#l@, self.#n.sv())),*])),
        fits: quote!(rec_len(v) == #len #(&& rec_name(v, #k) == #l@ && <#t as Wire>::fits(rec_field(v, #k)))*),
        reads: quote!(true #(&& <#t as Wire>::reads(rec_field(v, #k), x.#n))*),
        same: quote!(true #(&& <#t as Wire>::same(x.#n, y.#n))*),
        below: quote!(true #(&& self.#n.below(top))*),
        lemma: quote!(#(<#t as Wire>::lemma_back(x.#n); assert(rec_field(x.sv(), #k) == x.#n.sv());)*),
    })
}

fn enum_wire(s: &ItemEnum) -> Option<WireSpec> {
    let one = |v: &Variant| matches!(&v.fields, Fields::Unnamed(u) if u.unnamed.len() == 1);
    if !s.variants.iter().all(one) {
        return None;
    }
    let n: Vec<_> = s.variants.iter().map(|v| v.ident.clone()).collect();
    let l: Vec<_> = n.iter().map(|i| i.to_string()).collect();
    let t: Vec<_> = s.variants.iter().map(|v| v.fields.iter().next().unwrap().ty.clone()).collect();
    let k: Vec<_> = (0..n.len()).map(|i| LitInt::new(&i.to_string(), proc_macro2::Span::call_site())).collect();
    Some(WireSpec {
        sv: quote!(match self { #(Self::#n(x) => SV::Var(#k, #l@, Box::new(x.sv()))),* }),
        fits: quote!(false #(|| var_index(v) == #k && var_name(v) == #l@ && <#t as Wire>::fits(var_of(v)))*),
        reads: quote!(match x { #(Self::#n(x) => var_index(v) == #k && <#t as Wire>::reads(var_of(v), x)),* }),
        same: quote!(match x { #(Self::#n(x) => match y { Self::#n(y) => <#t as Wire>::same(x, y), _ => false }),* }),
        below: quote!(match self { #(Self::#n(x) => x.below(top)),* }),
        lemma: quote!(match x { #(Self::#n(z) => { <#t as Wire>::lemma_back(z); assert(var_of(x.sv()) == z.sv()); })* }),
    })
}

fn derive_wire(id: &Ident, g: &Generics, d: &[String], w: Option<WireSpec>, report: &mut Report) -> Vec<Item> {
    let (ser, de) = (d.contains(&"Serialize".to_string()), d.contains(&"Deserialize".to_string()));
    if !ser && !de {
        return vec![];
    }
    let Some(WireSpec { sv, fits, reads, same, below, lemma }) = w else {
        report.unsupported.push(format!("derive for {id}: a shape the model of serde does not have"));
        return vec![];
    };
    if !ser || !de {
        report.unsupported.push(format!("derive for {id}: only one of Serialize and Deserialize"));
        return vec![];
    }
    report.rw("derive(Serialize, Deserialize): its data model generated from the definition");
    let with = |b: TokenStream| {
        let mut g = g.clone();
        for p in g.type_params_mut() {
            let b: TypeParamBound = parse2(b.clone()).unwrap();
            p.bounds.push(b);
        }
        g
    };
    let (_, tg, wc) = g.split_for_impl();
    let gw = with(quote!(Wire));
    let (ig, _, _) = gw.split_for_impl();
    // the bodies are what Verus reads: they stay tokens of one macro until they are woven
    let text = quote!(
        open spec fn sv(&self) -> SV { #sv }
        open spec fn fits(v: SV) -> bool { #fits }
        open spec fn reads(v: SV, x: Self) -> bool { #reads }
        open spec fn same(x: Self, y: Self) -> bool { #same }
        open spec fn below(&self, top: int) -> bool { #below }
        proof fn lemma_back(x: Self) { #lemma }
    )
    .to_string();
    let gs = with(quote!(Serialize));
    let (igs, _, _) = gs.split_for_impl();
    let mut gd = with(quote!(Deserialize<'de>));
    gd.params.insert(0, parse_quote!('de));
    let (igd, _, _) = gd.split_for_impl();
    vec![
        parse_quote!(impl #ig Wire for #id #tg #wc { vx_text!(#text); }),
        parse_quote!(impl #igs Serialize for #id #tg #wc {
            #[verifier::external_body]
            fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> { unimplemented!() }
        }),
        parse_quote!(impl #igd Deserialize<'de> for #id #tg #wc {
            #[verifier::external_body]
            fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> { unimplemented!() }
        }),
    ]
}

fn derive_clone(s: &ItemStruct) -> Item {
    let id = &s.ident;
    let (ig, tg, wc) = s.generics.split_for_impl();
    let fields: Vec<TokenStream> = s
        .fields
        .iter()
        .map(|f| {
            let n = f.ident.as_ref().unwrap();
            quote!(#n: self.#n.clone())
        })
        .collect();
    parse_quote!(impl #ig Clone for #id #tg #wc { fn clone(&self) -> Self { #id { #(#fields),* } } })
}

fn derive_clone_enum(s: &ItemEnum) -> Item {
    let id = &s.ident;
    let mut g = s.generics.clone();
    for p in g.type_params_mut() {
        p.bounds.push(parse_quote!(Clone));
    }
    let (ig, tg, wc) = g.split_for_impl();
    let arms: Vec<TokenStream> = s
        .variants
        .iter()
        .map(|v| {
            let n = &v.ident;
            match v.fields.len() {
                0 => quote!(#id::#n => #id::#n),
                _ => quote!(#id::#n(x) => #id::#n(x.clone())),
            }
        })
        .collect();
    parse_quote!(impl #ig Clone for #id #tg #wc { fn clone(&self) -> Self { match self { #(#arms),* } } })
}

fn derive_default(s: &ItemStruct) -> Item {
    let id = &s.ident;
    let (ig, tg, wc) = s.generics.split_for_impl();
    let fields: Vec<TokenStream> = s
        .fields
        .iter()
        .map(|f| {
            let n = f.ident.as_ref().unwrap();
            let t = f.ty.to_token_stream().to_string();
            let v = if t.starts_with("Vec") {
                quote!(Vec::new())
            } else if t.starts_with("Array") {
                quote!([0; N])
            } else if t == "bool" {
                quote!(false)
            } else {
                quote!(0)
            };
            quote!(#n: #v)
        })
        .collect();
    parse_quote!(impl #ig Default for #id #tg #wc { fn default() -> Self { #id { #(#fields),* } } })
}

pub struct Cx<'a> {
    pub fid: String,
    pub types: BTreeMap<String, String>,
    pub loops: usize,
    pub fresh: usize,
    pub closures: usize,
    pub report: &'a mut Report,
    pub wants: &'a Wants,
}

fn function(
    fid: &str,
    sig: &mut Signature,
    block: Option<&mut Block>,
    wants: &Wants,
    report: &mut Report,
    _env: &BTreeMap<String, String>,
) {
    report.functions.push(fid.to_string());
    sig.constness = None;
    Types(report).visit_signature_mut(sig);
    let mut types = BTreeMap::new();
    for a in sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = a {
            t.attrs.clear();
            if let Pat::Ident(i) = &*t.pat {
                types.insert(i.ident.to_string(), t.ty.to_token_stream().to_string());
            }
        }
    }
    let has_spec = wants.specs.contains(fid);
    if let Some(block) = block {
        // `mut` parameters become locals
        let mut pre: Vec<Stmt> = vec![];
        for a in sig.inputs.iter_mut() {
            if let FnArg::Typed(t) = a {
                if let Pat::Ident(i) = &mut *t.pat {
                    if i.mutability.is_some() && i.by_ref.is_none() {
                        i.mutability = None;
                        let id = i.ident.clone();
                        let arg = quote::format_ident!("arg_{}", id);
                        i.ident = arg.clone();
                        pre.push(parse_quote!(let mut #id = #arg;));
                        report.rw("mut parameter to local");
                    }
                }
            }
        }
        for (k, s) in pre.into_iter().enumerate() {
            block.stmts.insert(k, s);
        }
        Types(report).visit_block_mut(block);
        let mut cx = Cx {
            fid: fid.to_string(),
            types,
            loops: 0,
            fresh: 0,
            closures: 0,
            report,
            wants,
        };
        cx.visit_block_mut(block);
        if let Some(hooks) = wants.hooks.get(fid) {
            anchors::attach(fid, block, hooks, cx.report);
        }
        if has_spec {
            block.stmts.insert(0, parse_quote!(vx_spec!(#fid);));
        }
    }
    if let Some(gp) = wants.ghostparams.get(fid) {
        for (n, t) in gp {
            let n = format_ident!("{}", n);
            let t: Type = parse_str(t).expect("ghost parameter type");
            sig.inputs.push(parse_quote!(vx_ghost(#n): Ghost<#t>));
        }
    }
    if has_spec {
        if let ReturnType::Type(_, t) = &sig.output {
            sig.output = parse_quote!(-> vx_ret!(#t));
        }
    }
}

fn base_ident(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Paren(p) => base_ident(&p.expr),
        Expr::Reference(r) => base_ident(&r.expr),
        Expr::Unary(u) => base_ident(&u.expr),
        _ => None,
    }
}

/// What an element of an iteration is.
enum Elem {
    One(Expr),
    Two(Box<Elem>, Box<Elem>),
}

impl Cx<'_> {
    fn is_int(&self, e: &Expr) -> bool {
        match e {
            Expr::Lit(l) => matches!(l.lit, Lit::Int(_) | Lit::Byte(_)),
            Expr::Binary(_) | Expr::Cast(_) => true,
            Expr::Unary(u) => self.is_int(&u.expr),
            Expr::Paren(p) => self.is_int(&p.expr),
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                ["len", "saturating_sub", "get_references", "get_count", "get_split_index"].contains(&n.as_str())
            }
            Expr::Field(f) => {
                if let Member::Named(n) = &f.member {
                    ["depth", "count", "node_count", "references", "split_index"].contains(&n.to_string().as_str())
                } else {
                    false
                }
            }
            Expr::Path(p) => match p.path.get_ident() {
                Some(i) => {
                    let n = i.to_string();
                    n.starts_with("vx_i")
                        || n.chars().all(|c| c.is_uppercase())
                        || matches!(
                            self.types.get(&n).map(String::as_str),
                            Some("usize" | "u8" | "u16" | "u32" | "u64" | "i32" | "i64" | "u128" | "int")
                        )
                }
                None => false,
            },
            Expr::Index(i) => {
                // slices of bytes
                let _ = i;
                false
            }
            _ => false,
        }
    }

    fn fresh(&mut self, p: &str) -> Ident {
        self.fresh += 1;
        format_ident!("vx_{}{}", p, self.fresh)
    }

    /// Replaces `&p` patterns by identifiers, returning the bindings.
    fn deref_pats(&mut self, p: &mut Pat) -> Vec<Stmt> {
        let mut out = vec![];
        match p {
            Pat::Reference(r) => {
                let inner = (*r.pat).clone();
                match inner {
                    Pat::Wild(_) => {
                        *p = parse_quote!(_);
                    }
                    mut inner => {
                        let id = match &inner {
                            Pat::Ident(i) => format_ident!("vx_r_{}", i.ident),
                            _ => self.fresh("r"),
                        };
                        let more = self.deref_pats(&mut inner);
                        out.push(parse_quote!(let #inner = *#id;));
                        out.extend(more);
                        *p = parse_quote!(#id);
                        self.report.rw("reference pattern");
                    }
                }
            }
            Pat::TupleStruct(t) => {
                for e in t.elems.iter_mut() {
                    out.extend(self.deref_pats(e));
                }
            }
            Pat::Tuple(t) => {
                for e in t.elems.iter_mut() {
                    out.extend(self.deref_pats(e));
                }
            }
            Pat::Struct(t) => {
                for e in t.fields.iter_mut() {
                    out.extend(self.deref_pats(&mut e.pat));
                }
            }
            _ => {}
        }
        out
    }

    fn bind(&mut self, p: &Pat, e: Elem, out: &mut Vec<Stmt>) -> bool {
        match (p, e) {
            (Pat::Tuple(t), Elem::Two(a, b)) if t.elems.len() == 2 => {
                self.bind(&t.elems[0], *a, out) && self.bind(&t.elems[1], *b, out)
            }
            (Pat::Reference(r), Elem::One(Expr::Reference(x))) => {
                self.bind(&r.pat, Elem::One((*x.expr).clone()), out)
            }
            (Pat::Reference(r), Elem::One(x)) => self.bind(&r.pat, Elem::One(parse_quote!(*#x)), out),
            (Pat::Wild(_), _) => true,
            (p, Elem::One(x)) => {
                let mut p = p.clone();
                let more = self.deref_pats(&mut p);
                if let Pat::Ident(i) = &p {
                    if self.is_int(&x) {
                        self.types.insert(i.ident.to_string(), "usize".into());
                    }
                }
                out.push(parse_quote!(let #p = #x;));
                out.extend(more);
                true
            }
            (Pat::Ident(i), Elem::Two(a, b)) => match (*a, *b) {
                (Elem::One(a), Elem::One(b)) => {
                    let i = &i.ident;
                    out.push(parse_quote!(let #i = (#a, #b);));
                    true
                }
                _ => false,
            },
            _ => false,
        }
    }

    fn for_loop(&mut self, f: &ExprForLoop) -> Option<Expr> {
        let k = self.loops + 1;
        let idx = format_ident!("vx_i{}", k);
        let end = format_ident!("vx_n{}", k);
        let mut e = (*f.expr).clone();
        while let Expr::Paren(p) = e {
            e = *p.expr;
        }
        // ranges
        let (range, rev) = match &e {
            Expr::MethodCall(m) if m.method == "rev" && m.args.is_empty() => {
                let mut r = (*m.receiver).clone();
                while let Expr::Paren(p) = r {
                    r = *p.expr;
                }
                match r {
                    Expr::Range(r) => (Some(r), true),
                    _ => (None, false),
                }
            }
            Expr::Range(r) => (Some(r.clone()), false),
            _ => (None, false),
        };
        let label = &f.label;
        let body = &f.body.stmts;
        if let Some(r) = range {
            let a = r.start.clone()?;
            let b = r.end.clone()?;
            let b: Expr = match r.limits {
                RangeLimits::HalfOpen(_) => *b,
                RangeLimits::Closed(_) => parse_quote!((#b) + 1),
            };
            self.report.rw("for over a range to while");
            let mut binds = vec![];
            let pre: Vec<Stmt>;
            let cond: Expr;
            let step: Stmt;
            if rev {
                pre = vec![parse_quote!(let #end: usize = #a;), parse_quote!(let mut #idx: usize = #b;)];
                cond = parse_quote!(#idx > #end);
                step = parse_quote!(#idx -= 1;);
                binds.push(step);
                if !self.bind(&f.pat, Elem::One(parse_quote!(#idx)), &mut binds) {
                    return None;
                }
            } else {
                pre = vec![parse_quote!(let mut #idx: usize = #a;), parse_quote!(let #end: usize = #b;)];
                cond = parse_quote!(#idx < #end);
                step = parse_quote!(#idx += 1;);
                if !self.bind(&f.pat, Elem::One(parse_quote!(#idx)), &mut binds) {
                    return None;
                }
                binds.push(step);
            }
            return Some(parse_quote!({ #(#pre)* #label while #cond { #(#binds)* #(#body)* } }));
        }
        // chains over sequences
        let mut adapters: Vec<(String, Option<Expr>)> = vec![];
        let mut cur = e.clone();
        loop {
            match cur {
                Expr::MethodCall(m)
                    if ["iter", "into_iter", "enumerate", "skip", "zip", "rev", "copied", "cloned", "take"]
                        .contains(&m.method.to_string().as_str()) =>
                {
                    adapters.push((m.method.to_string(), m.args.first().cloned()));
                    cur = *m.receiver;
                }
                _ => break,
            }
        }
        adapters.reverse();
        let mut pre: Vec<Stmt> = vec![];
        let (base, mut elem) = self.source(&cur, &mut adapters, &f.pat, &idx, &mut pre)?;
        let mut cond: Expr = parse_quote!(#idx < #base.len());
        let mut start: Expr = parse_quote!(0);
        let mut rev = false;
        for (a, arg) in &adapters {
            match a.as_str() {
                "enumerate" if !rev => {
                    elem = Elem::Two(Box::new(Elem::One(parse_quote!(#idx))), Box::new(elem));
                    if start != parse_quote!(0) {
                        return None;
                    }
                }
                "skip" => {
                    let n = arg.clone()?;
                    if start != parse_quote!(0) {
                        return None;
                    }
                    start = parse_quote!(#n);
                }
                "take" => {
                    let n = arg.clone()?;
                    if start != parse_quote!(0) || rev {
                        return None;
                    }
                    cond = parse_quote!(#cond && #idx < #n);
                }
                "zip" if !rev => {
                    let other = arg.clone()?;
                    if start != parse_quote!(0) {
                        return None;
                    }
                    let mut ad2 = vec![];
                    let mut c2 = other;
                    while let Expr::MethodCall(m) = c2.clone() {
                        if m.method == "iter" || m.method == "into_iter" || m.method == "copied" || m.method == "cloned" {
                            ad2.push((m.method.to_string(), None));
                            c2 = *m.receiver;
                        } else {
                            break;
                        }
                    }
                    ad2.reverse();
                    let pat2: Pat = match &*f.pat {
                        Pat::Tuple(t) if t.elems.len() == 2 => t.elems[1].clone(),
                        p => p.clone(),
                    };
                    let (b2, e2) = self.source(&c2, &mut ad2, &pat2, &idx, &mut pre)?;
                    if !ad2.iter().all(|(n, _)| n == "copied" || n == "cloned") {
                        return None;
                    }
                    let e2 = if ad2.is_empty() { e2 } else { strip_ref(e2) };
                    cond = parse_quote!(#cond && #idx < #b2.len());
                    elem = Elem::Two(Box::new(elem), Box::new(e2));
                }
                "rev" if !rev && start == parse_quote!(0) => rev = true,
                "copied" | "cloned" => elem = strip_ref(elem),
                _ => return None,
            }
        }
        self.report.rw("for over a sequence to while");
        let mut binds = vec![];
        if rev {
            binds.push(parse_quote!(#idx -= 1;));
            if !self.bind(&f.pat, elem, &mut binds) {
                return None;
            }
            Some(parse_quote!({ #(#pre)* let mut #idx: usize = #base.len(); #label while #idx > 0 { #(#binds)* #(#body)* } }))
        } else {
            if !self.bind(&f.pat, elem, &mut binds) {
                return None;
            }
            binds.push(parse_quote!(#idx += 1;));
            Some(parse_quote!({ #(#pre)* let mut #idx: usize = #start; #label while #cond { #(#binds)* #(#body)* } }))
        }
    }

    /// The sequence iterated over and its element at the index.
    fn source(
        &mut self,
        cur: &Expr,
        adapters: &mut Vec<(String, Option<Expr>)>,
        pat: &Pat,
        idx: &Ident,
        pre: &mut Vec<Stmt>,
    ) -> Option<(Expr, Elem)> {
        let mut cur = cur.clone();
        while let Expr::Paren(p) = cur {
            cur = *p.expr;
        }
        let mut by_ref = false;
        let mut known = false;
        if let Expr::Reference(r) = &cur {
            if r.mutability.is_some() {
                return None;
            }
            by_ref = true;
            known = true;
            cur = (*r.expr).clone();
        }
        // `&x[a..]` and `x[a..].iter()`: x from a on, a being within it
        if let Expr::Index(i) = &cur {
            let starts = !adapters.iter().any(|a| ["skip", "enumerate", "take", "zip", "rev"].contains(&a.0.as_str()));
            if let Expr::Range(ExprRange { start: Some(a), end: None, .. }) = &*i.index {
                let lit = matches!(&**a, Expr::Lit(_) | Expr::Path(_));
                if starts && lit && matches!(&*i.expr, Expr::Path(_)) && (by_ref || adapters.first().map_or(false, |a| a.0 == "iter")) {
                    let x = (*i.expr).clone();
                    pre.push(parse_quote!(vx_from(#x.len(), #a);));
                    adapters.push(("skip".to_string(), Some((**a).clone())));
                    self.report.rw("slice from an index");
                    cur = x;
                }
            }
        }
        match adapters.first().map(|a| a.0.as_str()) {
            Some("iter") => {
                by_ref = true;
                known = true;
                adapters.remove(0);
            }
            Some("into_iter") => {
                adapters.remove(0);
            }
            _ => {}
        }
        let simple = matches!(&cur, Expr::Path(_)) || matches!(&cur, Expr::Field(_));
        let base: Expr = if simple {
            cur.clone()
        } else {
            let id = self.fresh("s");
            if by_ref {
                pre.push(parse_quote!(let #id = &#cur;));
            } else {
                pre.push(parse_quote!(let #id = #cur;));
            }
            parse_quote!(#id)
        };
        if !known {
            let t = base_ident(&cur).and_then(|b| self.types.get(&b).cloned()).unwrap_or_default();
            by_ref = t.starts_with('&') || matches!(pat, Pat::Reference(_));
        }
        let e: Expr = if by_ref { parse_quote!(&#base[#idx]) } else { parse_quote!(#base[#idx]) };
        Some((base, Elem::One(e)))
    }

    fn option_match(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        fn simple_closure(e: &Expr) -> Option<(Option<Pat>, Expr)> {
            match e {
                Expr::Closure(c) if c.inputs.len() <= 1 => {
                    let t = c.body.to_token_stream().to_string();
                    if t.contains("return") || t.contains('?') {
                        return None;
                    }
                    Some((c.inputs.first().cloned(), (*c.body).clone()))
                }
                Expr::Path(p) => {
                    let x: Expr = parse_quote!(#p(vx_x));
                    Some((Some(parse_quote!(vx_x)), x))
                }
                _ => None,
            }
        }
        let r = &m.receiver;
        let a: Vec<&Expr> = m.args.iter().collect();
        match (m.method.to_string().as_str(), a.len()) {
            ("map_or", 2) => {
                let (p, b) = simple_closure(a[1])?;
                let (p, d) = (p?, a[0]);
                Some(parse_quote!(match #r { Some(#p) => #b, None => #d }))
            }
            ("map_or_else", 2) => {
                let (p, b) = simple_closure(a[1])?;
                let p = p?;
                let (q, d) = simple_closure(a[0])?;
                if q.is_some() {
                    return None;
                }
                Some(parse_quote!(match #r { Some(#p) => #b, None => #d }))
            }
            ("ok_or_else", 1) => {
                let (q, d) = simple_closure(a[0])?;
                if q.is_some() {
                    return None;
                }
                Some(parse_quote!(match #r { Some(vx_x) => Ok(vx_x), None => Err(#d) }))
            }
            ("ok_or", 1) => {
                let d = a[0];
                Some(parse_quote!(match #r { Some(vx_x) => Ok(vx_x), None => Err(#d) }))
            }
            ("is_some_and", 1) => {
                let (p, b) = simple_closure(a[0])?;
                let p = p?;
                Some(parse_quote!(match #r { Some(#p) => #b, None => false }))
            }
            _ => None,
        }
    }

    /// `match M.entry(K) { Occupied(o) => A, Vacant(v) => B }`
    fn entry_match(&mut self, m: &ExprMatch) -> Option<Expr> {
        let Expr::MethodCall(call) = &*m.expr else { return None };
        if call.method != "entry" || call.args.len() != 1 || m.arms.len() != 2 {
            return None;
        }
        let map = &call.receiver;
        let key = &call.args[0];
        let mut occ = None;
        let mut vac = None;
        for arm in &m.arms {
            let Pat::TupleStruct(t) = &arm.pat else { return None };
            let kind = t.path.segments.last()?.ident.to_string();
            let Pat::Ident(v) = t.elems.first()? else { return None };
            match kind.as_str() {
                "Occupied" => occ = Some((v.ident.clone(), (*arm.body).clone())),
                "Vacant" => vac = Some((v.ident.clone(), (*arm.body).clone())),
                _ => return None,
            }
        }
        let (o, mut a) = occ?;
        let (v, mut b) = vac?;
        struct R<'a> {
            name: &'a Ident,
            map: &'a Expr,
            key: &'a Expr,
        }
        impl VisitMut for R<'_> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                visit_mut::visit_expr_mut(self, e);
                if let Expr::MethodCall(m) = e {
                    if base_ident(&m.receiver).as_deref() == Some(&self.name.to_string()) {
                        let map = self.map;
                        let key = self.key;
                        match m.method.to_string().as_str() {
                            "into_mut" | "get_mut" => *e = parse_quote!((&mut vx_entry)),
                            "get" => *e = parse_quote!((&vx_entry)),
                            "insert" => {
                                let x = m.args[0].clone();
                                *e = parse_quote!(#map.insert(#key, #x));
                            }
                            _ => {}
                        }
                    }
                }
                // (*(&mut x)) -> x
                if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = e {
                    if expr.to_token_stream().to_string().replace(['(', ')', ' '], "") == "&mutvx_entry" {
                        *e = parse_quote!(vx_entry);
                    }
                }
            }
        }
        R { name: &o, map, key }.visit_expr_mut(&mut a);
        R { name: &v, map, key }.visit_expr_mut(&mut b);
        self.report.rw("HashMap entry match");
        Some(parse_quote!(
            if let Some(mut vx_entry) = vx_hm_take(&mut *#map, &#key) { { #a; } #map.insert(#key, vx_entry); } else { #b; }
        ))
    }

    /// `M.entry(K).or_default().push(X)` and relatives, as a statement.
    fn entry_push(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        if m.method != "push" {
            return None;
        }
        let Expr::MethodCall(or) = &*m.receiver else { return None };
        let n = or.method.to_string();
        if !["or_default", "or_insert_with", "or_insert"].contains(&n.as_str()) {
            return None;
        }
        if n != "or_default" {
            let t = or.args.first()?.to_token_stream().to_string().replace(' ', "");
            if !["Vec::new", "Vec::new()", "vec![]", "Vec::default"].contains(&t.as_str()) {
                return None;
            }
        }
        let Expr::MethodCall(en) = &*or.receiver else { return None };
        if en.method != "entry" {
            return None;
        }
        let map = &en.receiver;
        let key = &en.args[0];
        let x = &m.args[0];
        self.report.rw("HashMap entry or_default push");
        Some(parse_quote!(
            if let Some(mut vx_entry) = vx_hm_take(&mut *#map, &#key) { { vx_entry.push(#x); } #map.insert(#key, vx_entry); } else { #map.insert(#key, vec![#x]); }
        ))
    }
}

fn strip_ref(e: Elem) -> Elem {
    match e {
        Elem::One(Expr::Reference(r)) => Elem::One(*r.expr),
        Elem::One(x) => Elem::One(parse_quote!(*#x)),
        Elem::Two(a, b) => Elem::Two(a, b),
    }
}

fn prefix(b: &mut Block, stmts: Vec<Stmt>) {
    for (k, s) in stmts.into_iter().enumerate() {
        b.stmts.insert(k, s);
    }
}

impl VisitMut for Cx<'_> {
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        let mut name = None;
        let mut ty = None;
        match &l.pat {
            Pat::Type(t) => {
                if let Pat::Ident(i) = &*t.pat {
                    name = Some(i.ident.to_string());
                    ty = Some(t.ty.to_token_stream().to_string());
                }
            }
            Pat::Ident(i) => {
                name = Some(i.ident.to_string());
                if let Some(init) = &l.init {
                    if self.is_int(&init.expr) {
                        ty = Some("usize".into());
                    }
                    let t = init.expr.to_token_stream().to_string().replace(' ', "");
                    if t.starts_with("HashMap::") {
                        ty = Some("HashMap".into());
                    }
                }
            }
            _ => {}
        }
        if let (Some(n), Some(t)) = (name, ty) {
            self.types.insert(n, t);
        }
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        // `let m: HashMap<..> = CHAIN.collect();` is an insertion of each item, `a.extend(b);` an append
        let mut k = 0;
        while k < b.stmts.len() {
            let new: Option<Vec<Stmt>> = match &b.stmts[k] {
                Stmt::Local(l) => self.collect_loop(l),
                Stmt::Expr(Expr::MethodCall(m), Some(_)) if m.method == "extend" && m.args.len() == 1 => match (&*m.receiver, &m.args[0]) {
                    (Expr::Path(a), Expr::Path(x)) => {
                        let id = self.fresh("x");
                        self.report.rw("extend");
                        Some(vec![parse_quote!(let mut #id = #x;), parse_quote!(#a.append(&mut #id);)])
                    }
                    _ => None,
                },
                _ => None,
            };
            if let Some(n) = new {
                b.stmts.splice(k..k + 1, n);
            }
            k += 1;
        }
        // reference patterns in let statements
        let mut k = 0;
        while k < b.stmts.len() {
            if let Stmt::Local(l) = &mut b.stmts[k] {
                let more = self.deref_pats(&mut l.pat);
                for (j, s) in more.into_iter().enumerate() {
                    b.stmts.insert(k + 1 + j, s);
                }
            }
            k += 1;
        }
        visit_mut::visit_block_mut(self, b);
        // macros that only check or print
        b.stmts.retain(|s| match s {
            Stmt::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                !n.starts_with("debug_assert")
            }
            Stmt::Item(Item::Use(_)) => false,
            _ => true,
        });
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) => {
                let f = f.clone();
                match self.for_loop(&f) {
                    Some(mut n) => {
                        // visit the pieces in order, the loop itself being a while now
                        self.visit_expr_mut(&mut n);
                        *e = n;
                    }
                    None => {
                        self.loops += 1;
                        self.report.unsupported.push(format!("{}: for loop", self.fid));
                        visit_mut::visit_expr_mut(self, e);
                    }
                }
                return;
            }
            Expr::While(w) => {
                // `while let Some(p) = q.pop()` is `while !q.is_empty() { let p = <the item popped>; .. }`
                if let Expr::Let(l) = &*w.cond {
                    if let (Pat::TupleStruct(t), Expr::MethodCall(m)) = (&*l.pat, &*l.expr) {
                        let n = m.method.to_string();
                        let plain = |p: &Pat| matches!(p, Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none()) || matches!(p, Pat::Wild(_));
                        let inner = t.elems.first().map_or(false, |p| match p {
                            Pat::Tuple(t) => t.elems.iter().all(plain),
                            p => plain(p),
                        });
                        let place = matches!(&*m.receiver, Expr::Path(_));
                        if t.path.is_ident("Some") && inner && place && m.args.is_empty() && ["pop", "pop_front", "pop_back"].contains(&n.as_str()) {
                            let (p, q, pop) = (t.elems[0].clone(), (*m.receiver).clone(), (*l.expr).clone());
                            w.cond = Box::new(parse_quote!(!#q.is_empty()));
                            w.body.stmts.insert(0, parse_quote!(let #p = match #pop { Some(vx_item) => vx_item, None => vx_unreached() };));
                            self.report.rw("while let with a queue to while");
                        }
                    }
                }
                self.loops += 1;
                let id = format!("{}#{}", self.fid, self.loops);
                if let Expr::Let(l) = &mut *w.cond {
                    let more = self.deref_pats(&mut l.pat);
                    prefix(&mut w.body, more);
                }
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                w.body.stmts.insert(0, parse_quote!(vx_loop!(#id);));
                return;
            }
            Expr::Loop(w) => {
                self.loops += 1;
                let id = format!("{}#{}", self.fid, self.loops);
                self.visit_block_mut(&mut w.body);
                w.body.stmts.insert(0, parse_quote!(vx_loop!(#id);));
                return;
            }
            Expr::If(i) => {
                if let Expr::Let(l) = &mut *i.cond {
                    let more = self.deref_pats(&mut l.pat);
                    prefix(&mut i.then_branch, more);
                }
            }
            Expr::Match(m) => {
                if let Some(n) = self.entry_match(m) {
                    *e = n;
                    self.visit_expr_mut(e);
                    return;
                }
                for a in m.arms.iter_mut() {
                    a.attrs.clear();
                    let more = self.deref_pats(&mut a.pat);
                    if !more.is_empty() {
                        let b = &a.body;
                        a.body = Box::new(parse_quote!({ #(#more)* #b }));
                        if a.guard.is_some() {
                            self.report.unsupported.push(format!("{}: guard under a reference pattern", self.fid));
                        }
                    }
                }
            }
            Expr::Closure(c) => {
                self.closures += 1;
                let id = format!("{}|{}", self.fid, self.closures);
                let mut more = vec![];
                for p in c.inputs.iter_mut() {
                    more.extend(self.deref_pats(p));
                }
                let want = self.wants.closures.contains(&id);
                if !more.is_empty() || want {
                    let b = &c.body;
                    let mark: Vec<Stmt> = if want { vec![parse_quote!(vx_closure!(#id);)] } else { vec![] };
                    c.body = Box::new(parse_quote!({ #(#mark)* #(#more)* #b }));
                    if want {
                        c.output = parse_quote!(-> vx_cret!());
                    }
                }
            }
            Expr::MethodCall(m) => {
                let n = self.entry_push(m).or_else(|| self.option_match(m));
                if let Some(n) = n {
                    *e = n;
                    self.report.rw("Option combinator to match");
                    self.visit_expr_mut(e);
                    return;
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        self.after(e);
    }
}

impl Cx<'_> {
    fn collect_loop(&mut self, l: &Local) -> Option<Vec<Stmt>> {
        let init = l.init.as_ref()?;
        let Expr::MethodCall(c) = &*init.expr else { return None };
        if c.method != "collect" {
            return None;
        }
        let (name, ty): (Ident, Type) = match &l.pat {
            Pat::Type(t) => match &*t.pat {
                Pat::Ident(i) => (i.ident.clone(), (*t.ty).clone()),
                _ => return None,
            },
            Pat::Ident(i) => {
                let t = c.turbofish.as_ref()?.args.first()?;
                match t {
                    GenericArgument::Type(t) => (i.ident.clone(), t.clone()),
                    _ => return None,
                }
            }
            _ => return None,
        };
        let kind = type_name(&ty);
        if kind != "HashMap" && kind != "Vec" {
            return None;
        }
        let plain = ty.to_token_stream().to_string().contains("_ >") || ty.to_token_stream().to_string() == kind;
        let known = |e: &Expr| {
            let mut e = e.clone();
            loop {
                match e {
                    Expr::MethodCall(m) if ["iter", "enumerate", "skip", "zip", "rev", "copied", "cloned", "take"].contains(&m.method.to_string().as_str()) => {
                        if m.method == "iter" {
                            return true;
                        }
                        e = *m.receiver;
                    }
                    _ => return false,
                }
            }
        };
        let (chain, pat, item): (Expr, Pat, Expr) = match &*c.receiver {
            Expr::MethodCall(m) if m.method == "map" && m.args.len() == 1 => match &m.args[0] {
                Expr::Closure(f) if f.inputs.len() == 1 => {
                    let t = f.body.to_token_stream().to_string();
                    if t.contains("return") || t.contains('?') {
                        return None;
                    }
                    ((*m.receiver).clone(), f.inputs[0].clone(), (*f.body).clone())
                }
                _ => return None,
            },
            e if kind == "HashMap" => (e.clone(), parse_quote!((vx_k, vx_v)), parse_quote!((vx_k, vx_v))),
            e => (e.clone(), parse_quote!(vx_v), parse_quote!(vx_v)),
        };
        if !known(&chain) {
            return None;
        }
        let put: Vec<Stmt> = if kind == "HashMap" {
            match &item {
                Expr::Tuple(t) if t.elems.len() == 2 => {
                    let (a, b) = (&t.elems[0], &t.elems[1]);
                    vec![parse_quote!(#name.insert(#a, #b);)]
                }
                x => vec![parse_quote!(let vx_kv = #x;), parse_quote!(#name.insert(vx_kv.0, vx_kv.1);)],
            }
        } else {
            vec![parse_quote!(#name.push(#item);)]
        };
        let kind = format_ident!("{}", kind);
        self.report.rw("collect as a loop");
        let first: Stmt = if plain { parse_quote!(let mut #name = #kind::new();) } else { parse_quote!(let mut #name: #ty = #kind::new();) };
        Some(vec![first, parse_quote!(for #pat in #chain { #(#put)* })])
    }

    fn after(&mut self, e: &mut Expr) {
        let new: Option<Expr> = match e {
            Expr::Lit(l) => match &l.lit {
                Lit::ByteStr(s) => {
                    let v = s.value();
                    let name = format_ident!("vx_lit_{}", v.iter().map(|b| format!("{b:02x}")).collect::<String>());
                    self.report.rw("byte string literal");
                    Some(parse_quote!(#name()))
                }
                _ => None,
            },
            Expr::Call(c) => {
                let t = c.func.to_token_stream().to_string().replace(' ', "");
                let mut r = None;
                if t == "PhantomData::default" {
                    self.report.rw("PhantomData");
                    r = Some(parse_quote!(PhantomData));
                } else if t.ends_with("::with_capacity") && c.args.len() == 1 {
                    let f = if t.starts_with("VecDeque") { "vx_deque_cap" } else if t.starts_with("Vec") { "vx_vec_cap" } else { "vx_map_cap" };
                    let (f, a) = (format_ident!("{}", f), &c.args[0]);
                    self.report.rw("with_capacity");
                    r = Some(parse_quote!(#f(#a)));
                } else if t == "Array::default" {
                    r = Some(parse_quote!([0; N]));
                } else if t == "Path::new" || t == "VxPath::new" {
                    let a = &c.args;
                    self.report.rw("type Path made opaque");
                    r = Some(parse_quote!(vx_path(#a)));
                } else if t == "Array" && c.args.len() == 1 {
                    let a = &c.args[0];
                    r = Some(parse_quote!(#a));
                } else {
                    let last = t.rsplit("::").next().unwrap_or("").to_string();
                    if let Some(ga) = self.wants.ghostargs.get(&self.fid) {
                        for (callee, x) in ga {
                            if *callee == last {
                                let x: Expr = parse_str(x).expect("ghost argument");
                                c.args.push(parse_quote!(vx_gh!(#x)));
                            }
                        }
                    }
                }
                r
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let recv = m.receiver.to_token_stream().to_string().replace(' ', "");
                let r = &m.receiver;
                let a = &m.args;
                if ["get_node", "batch_write"].contains(&n.as_str()) && !recv.starts_with("self.db.")
                    || ["insert", "remove"].contains(&n.as_str()) && recv.ends_with(".db")
                {
                    if recv.ends_with("db") && self.fid.starts_with("MerkleBIT") {
                        let f = format_ident!("vx_db_{}", n);
                        self.report.rw("database call through its lemma wrapper");
                        let bor: TokenStream = if n == "get_node" { quote!(&) } else { quote!(&mut) };
                        if a.is_empty() {
                            Some(parse_quote!(#f::<M::Hasher, M::Node, M::Database, N>(#bor #r)))
                        } else {
                            Some(parse_quote!(#f::<M::Hasher, M::Node, M::Database, N>(#bor #r, #a)))
                        }
                    } else {
                        None
                    }
                } else if (n == "sort" || n == "sort_unstable") && a.is_empty() {
                    self.report.rw("sort");
                    Some(parse_quote!(#r.vx_sort()))
                } else if n == "binary_search" {
                    self.report.rw("binary_search");
                    Some(parse_quote!(vx_binary_search(#r, #a)))
                } else if n == "collect" && recv.ends_with(".into_iter()") {
                    self.report.rw("collect");
                    let Expr::MethodCall(inner) = &**r else { return };
                    let b = &inner.receiver;
                    Some(parse_quote!(vx_collect(#b)))
                } else if n == "into" && a.is_empty() && self.fid.contains("Hasher") {
                    Some(parse_quote!(#r))
                } else if matches!(n.as_str(), "to_le_bytes" | "to_be_bytes" | "to_ne_bytes") && a.is_empty() {
                    self.report.rw("to_le_bytes");
                    let f = format_ident!("vx_{}", &n[3..]);
                    Some(parse_quote!(#f(#r)))
                } else if n == "append" && a.len() == 1 {
                    None
                } else {
                    if let Some(ga) = self.wants.ghostargs.get(&self.fid) {
                        let mut hit = false;
                        for (callee, x) in ga {
                            if *callee == n {
                                let x: Expr = parse_str(x).expect("ghost argument");
                                m.args.push(parse_quote!(vx_gh!(#x)));
                                hit = true;
                            }
                        }
                        if hit {
                            return;
                        }
                    }
                    None
                }
            }
            Expr::Index(i) => {
                let b = base_ident(&i.expr);
                let ty = b.as_ref().and_then(|b| self.types.get(b)).cloned().unwrap_or_default();
                if matches!(&*i.index, Expr::Range(r) if r.start.is_none() && r.end.is_none()) {
                    let x = &i.expr;
                    self.report.rw("full range slice");
                    Some(parse_quote!((*vx_all(&#x))))
                } else if ty.contains("HashMap") {
                    let (m, k) = (&i.expr, &i.index);
                    self.report.rw("HashMap index");
                    let m: Expr = if ty.starts_with('&') { parse_quote!(#m) } else { parse_quote!(&#m) };
                    Some(parse_quote!((*vx_hm_index(#m, #k))))
                } else {
                    None
                }
            }
            Expr::Binary(b) => {
                let f = match b.op {
                    BinOp::Lt(_) => Some("vx_lt"),
                    BinOp::Gt(_) => Some("vx_gt"),
                    BinOp::Le(_) => Some("vx_le"),
                    BinOp::Ge(_) => Some("vx_ge"),
                    _ => None,
                };
                match f {
                    Some(f) if !self.is_int(&b.left) && !self.is_int(&b.right) => {
                        let keyish = |e: &Expr| {
                            base_ident(e).map_or(false, |i| {
                                i.contains("key") || i.contains("loc") || i.contains("hash")
                                    || self.types.get(&i).map_or(false, |t| t.contains("Array"))
                            })
                        };
                        if keyish(&b.left) || keyish(&b.right) {
                            let f = format_ident!("{}", f);
                            let (l, r) = (&b.left, &b.right);
                            self.report.rw("comparison of keys");
                            Some(parse_quote!(#f(&#l, &#r)))
                        } else {
                            None
                        }
                    }
                    _ => None,
                }
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}
