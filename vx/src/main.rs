//! vx: mechanical extractor.  Reads Rust source files of /repo, applies a fixed
//! set of syntactic desugarings (see DESIGN.md, "What the extraction drops"),
//! attaches the contracts of a unit file, and prints one Verus program.
//! It never edits executable code other than by those desugarings.
mod chain;
mod mac;
mod print;
mod rw;
mod unit;

use proc_macro2::{Ident, Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use syn::visit_mut::VisitMut;
use unit::{FnSpec, Unit};

pub fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

thread_local!(static CURFN: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) });

pub fn die(kind: &str, msg: &str) -> ! {
    // "scaffold" problems: the source no longer has the shape the contracts are attached to.
    let at = CURFN.with(|c| c.borrow().clone());
    println!("VX-{kind}: @{at}@ {msg}");
    std::process::exit(if kind == "SCAFFOLD" { 3 } else { 2 });
}

#[derive(Default)]
pub struct Ghosts(pub Vec<String>);
impl Ghosts {
    pub fn add(&mut self, text: String) -> Ident {
        self.0.push(text);
        format_ident!("__GHOST_{}__", self.0.len() - 1)
    }
}

pub struct Ctx<'a> {
    pub unit: &'a Unit,
    pub ghosts: Ghosts,
    pub macros: BTreeMap<String, mac::MacroRules>,
    pub const_names: BTreeSet<String>, // string constants usable in patterns
    pub used: BTreeSet<String>,        // fn keys of the unit that were found
    pub fns: Vec<(String, bool)>,      // every exec fn emitted, has contract
    pub probe: bool,
    pub desugared: BTreeMap<String, usize>,
    pub dropped: Vec<String>,
}
impl Ctx<'_> {
    pub fn count(&mut self, what: &str) {
        *self.desugared.entry(what.to_string()).or_default() += 1;
    }
}

fn is_test_attr(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let t = norm(&a.to_token_stream().to_string());
        t == "#[cfg(test)]" || t == "#[test]" || t == "#[bench]"
    })
}

fn derives(attrs: &[syn::Attribute]) -> Vec<String> {
    let mut out = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                out.push(m.path.to_token_stream().to_string());
                Ok(())
            });
        }
    }
    out
}

/// remaps of whole paths (first segments), e.g. wasabi_wasm -> crate::wasabi_wasm
pub struct PathMap<'a>(pub &'a Unit);
impl PathMap<'_> {
    fn map_path(&self, p: &mut syn::Path) {
        if p.leading_colon.is_some() || p.segments.is_empty() {
            return;
        }
        let mut key = String::new();
        let mut hit = None;
        for (n, s) in p.segments.iter().enumerate() {
            key = if n == 0 { s.ident.to_string() } else { format!("{key}::{}", s.ident) };
            if let Some(to) = self.0.pathmap.get(&key) {
                hit = Some((n, to));
            }
        }
        if let Some((n, to)) = hit {
            let mut np: syn::Path = syn::parse_str(to).unwrap();
            let last = np.segments.len() - 1;
            np.segments[last].arguments = p.segments[n].arguments.clone();
            for s in p.segments.iter().skip(n + 1) {
                np.segments.push(s.clone());
            }
            *p = np;
        }
    }
}
impl VisitMut for PathMap<'_> {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if p.segments.len() > 1 {
            self.map_path(p);
        }
        syn::visit_mut::visit_path_mut(self, p);
    }
    fn visit_use_tree_mut(&mut self, t: &mut syn::UseTree) {
        if let syn::UseTree::Path(up) = t {
            let mut key = up.ident.to_string();
            let mut at: &syn::UseTree = &up.tree;
            let mut hit = self.0.pathmap.get(&key).map(|to| (to.clone(), at.clone()));
            while let syn::UseTree::Path(nx) = at {
                key = format!("{key}::{}", nx.ident);
                at = &nx.tree;
                if let Some(to) = self.0.pathmap.get(&key) {
                    hit = Some((to.clone(), at.clone()));
                }
            }
            if let Some((to, mut inner)) = hit {
                let segs: Vec<&str> = to.split("::").collect();
                for s in segs.iter().rev() {
                    inner = syn::UseTree::Path(syn::UsePath {
                        ident: Ident::new(s, Span::call_site()),
                        colon2_token: Default::default(),
                        tree: Box::new(inner),
                    });
                }
                *t = inner;
            }
        }
    }
}

fn publish_fields(f: &mut syn::Fields) {
    for x in f.iter_mut() {
        x.vis = syn::parse_quote!(pub);
        x.attrs.clear();
    }
}

struct StripAttrs;
impl VisitMut for StripAttrs {
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.clear();
    }
}

fn item_key(i: &syn::Item) -> Option<String> {
    Some(match i {
        syn::Item::Fn(f) => f.sig.ident.to_string(),
        syn::Item::Struct(s) => s.ident.to_string(),
        syn::Item::Enum(s) => s.ident.to_string(),
        syn::Item::Trait(s) => s.ident.to_string(),
        syn::Item::Const(s) => s.ident.to_string(),
        syn::Item::Type(s) => s.ident.to_string(),
        syn::Item::Mod(s) => s.ident.to_string(),
        syn::Item::Use(u) => format!("use {}", u.tree.to_token_stream()),
        syn::Item::Impl(im) => impl_key(im),
        _ => return None,
    })
}

fn impl_key(im: &syn::ItemImpl) -> String {
    let st = norm(&im.self_ty.to_token_stream().to_string());
    match &im.trait_ {
        Some((_, p, _)) => format!("<{}for{}>", norm(&p.to_token_stream().to_string()), st),
        None => st,
    }
}

fn glob(pat: &str, s: &str) -> bool {
    if let Some(p) = pat.strip_suffix('*') {
        s.starts_with(p)
    } else {
        pat == s
    }
}

fn contract_has_self(i: &syn::punctuated::Punctuated<syn::FnArg, syn::Token![,]>) -> bool {
    i.iter().any(|a| matches!(a, syn::FnArg::Receiver(_)))
}

fn emit_fn(cx: &mut Ctx, key: &str, vis: TokenStream, sig: &mut syn::Signature, block: Option<&mut syn::Block>, hoisted: &mut Vec<TokenStream>) -> TokenStream {
    emit_fn_with(cx, key, vis, sig, block, hoisted, None)
}

fn emit_fn_with(
    cx: &mut Ctx,
    key: &str,
    vis: TokenStream,
    sig: &mut syn::Signature,
    block: Option<&mut syn::Block>,
    hoisted: &mut Vec<TokenStream>,
    over: Option<&FnSpec>,
) -> TokenStream {
    let unit = cx.unit;
    CURFN.with(|c| *c.borrow_mut() = key.to_string());
    let spec: Option<&FnSpec> = unit.fns.get(key);
    if spec.is_some() {
        cx.used.insert(key.to_string());
    }
    StripAttrs.visit_signature_mut(sig);
    // patterns in parameters -> plain names
    let mut pre: Vec<TokenStream> = vec![];
    let mut pnames: Vec<String> = vec![];
    for (i, a) in sig.inputs.iter_mut().enumerate() {
        match a {
            syn::FnArg::Receiver(_) => pnames.push("self".into()),
            syn::FnArg::Typed(pt) => match &*pt.pat {
                syn::Pat::Ident(pi) if pi.subpat.is_none() => pnames.push(pi.ident.to_string()),
                syn::Pat::Wild(_) => {
                    let id = format_ident!("__p{}", i);
                    *pt.pat = syn::parse_quote!(#id);
                    pnames.push(id.to_string());
                }
                other => {
                    let id = format_ident!("__p{}", i);
                    pre.push(quote!(let #other = #id;));
                    pnames.push(id.to_string());
                    let np: syn::Pat = syn::parse_quote!(#id);
                    *pt.pat = np;
                    cx.count("parameter pattern -> let");
                }
            },
        }
    }
    let default = FnSpec::default();
    let sp = over.or(spec).unwrap_or(&default);
    if sp.unimplemented_drop {
        cx.dropped.push(key.to_string());
        return quote!();
    }
    let sub = |t: &str| -> String {
        let mut t = t.to_string();
        for (i, n) in pnames.iter().enumerate().rev() {
            t = t.replace(&format!("$p{i}"), n);
        }
        t
    };
    let ret_ty: Option<syn::Type> = match &sig.output {
        syn::ReturnType::Default => None,
        syn::ReturnType::Type(_, t) => Some((**t).clone()),
    };
    let rname = Ident::new(sp.ret.as_deref().unwrap_or("r"), Span::call_site());
    let (constness, asyncness, unsafety) = (&sig.constness, &sig.asyncness, &sig.unsafety);
    let ident = &sig.ident;
    let gen = &sig.generics;
    let wc = &gen.where_clause;
    let inputs = &sig.inputs;
    let out = match &ret_ty {
        None => quote!(),
        Some(t) => quote!(-> (#rname: #t)),
    };
    let contract = if sp.contract.trim().is_empty() {
        quote!()
    } else {
        let g = cx.ghosts.add(format!("//@@contract {key}\n{}\n//@@endcontract", sub(&sp.contract)));
        quote!(#g)
    };
    let head = quote!(#vis #constness #asyncness #unsafety fn #ident #gen (#inputs) #out #wc #contract);
    let Some(block) = block else {
        return quote!(#head ;);
    };
    let begin = cx.ghosts.add(format!("//@@fn {key}"));
    let end = cx.ghosts.add(format!("//@@endfn {key}"));
    // the same body verified once per case; the function itself then has its contract from the cases
    // (`cases`: the case is an added precondition; `lcases`: every iteration of one loop is split, each copy
    // shows the invariant is kept by the iterations of its case; the last case is always the rest)
    if (!sp.cases.is_empty() || sp.lcases.is_some()) && !sp.external {
        if contract_has_self(&sig.inputs) && key.matches("::<").count() > 0 {
            die("SCAFFOLD", &format!("{key}: cases in a trait implementation"));
        }
        cx.count("obligations of a function split into cases");
        let mut all = TokenStream::new();
        let with_rest = |c: &Vec<String>| {
            let mut c = c.clone();
            c.push(format!("!({})", c.iter().map(|c| format!("({c})")).collect::<Vec<_>>().join(" || ")));
            c
        };
        let mut specs = vec![];
        if !sp.cases.is_empty() {
            for c in with_rest(&sp.cases) {
                let mut one = sp.clone();
                one.cases.clear();
                let text = sp.contract.clone();
                one.contract = match text.find("requires") {
                    Some(p) if text[..p].trim().is_empty() => format!("{}requires {c},{}", &text[..p], &text[p + 8..]),
                    _ => format!("    requires {c},\n{text}"),
                };
                specs.push(one);
            }
        } else {
            specs.push(sp.clone());
        }
        if let Some((n, lc)) = &sp.lcases {
            let base = std::mem::take(&mut specs);
            for sp in base {
                for c in with_rest(lc) {
                    let mut one = sp.clone();
                    one.lcases = None;
                    one.lstart.entry(*n).or_default().push_str(&format!("\nproof {{ assume({c}); }} // vx: verified case by case\n"));
                    specs.push(one);
                }
            }
        }
        for (i, one) in specs.iter().enumerate() {
            let mut sg = sig.clone();
            sg.ident = format_ident!("{}__case{}", sig.ident, i);
            let mut bl = block.clone();
            all.extend(emit_fn_with(cx, key, vis.clone(), &mut sg, Some(&mut bl), hoisted, Some(one)));
        }
        let ext = cx.ghosts.add("#[verifier::external_body] /* vx: verified case by case */".into());
        return quote!(#all #begin #ext #head { ::core::unimplemented!() } #end);
    }
    if sp.external {
        CURFN.with(|c| c.borrow_mut().clear());
        cx.fns.push((key.to_string(), !sp.contract.trim().is_empty()));
        let ext = cx.ghosts.add("#[verifier::external_body]".into());
        return quote!(#begin #ext #head { ::core::unimplemented!() } #end);
    }
    StripAttrs.visit_block_mut(block);
    rw::prepare(cx, block);
    rw::inline_helpers(cx, block);
    if cx.unit.opts.iter().any(|o| o == "loops" || o.strip_prefix("loops ").is_some_and(|m| key.starts_with(&format!("{m}::")))) {
        chain::loops(cx, block, hoisted);
        chain::DropMarks.visit_block_mut(block);
    }
    if let Some(o) = cx.unit.opts.iter().find_map(|o| o.strip_prefix("via ")).map(|o| o.to_string()) {
        // `via MODULE METHOD name ..`: what the module's own type reaches through its Deref
        let w: Vec<&str> = o.split(' ').collect();
        if key.starts_with(&format!("{}::", w[0])) {
            chain::Via { cx, method: w[1].into(), names: w[2..].iter().map(|x| x.to_string()).collect() }.visit_block_mut(block);
        }
    }
    if cx.unit.opts.iter().any(|o| o == "mapcollect") && ret_ty.as_ref().is_some_and(|t| norm(&t.to_token_stream().to_string()).starts_with("Result<Vec<")) {
        rw::map_collect(cx, block);
    }
    let mut r = rw::Rw::new(cx, key, sp, &sub);
    r.visit_block_mut(block);
    let (nl, nc) = (r.loops, r.closures);
    let na = r.afters;
    hoisted.append(&mut r.hoisted);
    let want_loops = sp.loops.keys().max().map(|m| m + 1).unwrap_or(0);
    if want_loops > 0 && nl != want_loops {
        die("SCAFFOLD", &format!("{key}: {nl} loops in the source, contracts for {want_loops}"));
    }
    let want_cl = sp.closures.keys().max().map(|m| m + 1).unwrap_or(0);
    if want_cl > nc {
        die("SCAFFOLD", &format!("{key}: {nc} closures in the source, contracts for {want_cl}"));
    }
    if na != sp.after.len() {
        die("SCAFFOLD", &format!("{key}: {na} of {} let anchors found", sp.after.len()));
    }
    cx.fns.push((key.to_string(), spec.is_some()));
    let mut start = quote!();
    if cx.probe {
        let g = cx.ghosts.add(format!(
            "proof {{ if vstd::prelude::arbitrary::<bool>() {{ assert(false); /*PROBE fn {key}*/ }} }}"
        ));
        start = quote!(#g);
    }
    if !sp.start.trim().is_empty() {
        let g = cx.ghosts.add(sub(&sp.start));
        start = quote!(#g #start);
    }
    let mut stmts = block.stmts.clone();
    let mut tail = quote!();
    if !sp.end.trim().is_empty() {
        let g = cx.ghosts.add(sub(&sp.end));
        match stmts.last() {
            Some(syn::Stmt::Expr(e, None)) if ret_ty.is_some() => {
                let t = ret_ty.as_ref().unwrap();
                tail = quote!(let #rname : #t = #e; #g #rname);
                stmts.pop();
            }
            _ => tail = quote!(#g),
        }
    }
    let attr = if sp.attr.trim().is_empty() { quote!() } else { let g = cx.ghosts.add(sp.attr.clone()); quote!(#g) };
    CURFN.with(|c| c.borrow_mut().clear());
    quote!(#begin #attr #head { #(#pre)* #start #(#stmts)* #tail } #end)
}

fn emit_items(cx: &mut Ctx, modpath: &str, items: Vec<syn::Item>) -> TokenStream {
    let mut out = TokenStream::new();
    let unit = cx.unit;
    // strings usable as patterns
    for it in &items {
        if let syn::Item::Const(c) = it {
            if norm(&c.ty.to_token_stream().to_string()).ends_with("str") {
                cx.const_names.insert(c.ident.to_string());
            }
        }
    }
    for mut it in items {
        let attrs = match &it {
            syn::Item::Fn(x) => x.attrs.clone(),
            syn::Item::Struct(x) => x.attrs.clone(),
            syn::Item::Enum(x) => x.attrs.clone(),
            syn::Item::Mod(x) => x.attrs.clone(),
            syn::Item::Impl(x) => x.attrs.clone(),
            syn::Item::Use(x) => x.attrs.clone(),
            syn::Item::Const(x) => x.attrs.clone(),
            syn::Item::Trait(x) => x.attrs.clone(),
            syn::Item::Type(x) => x.attrs.clone(),
            _ => vec![],
        };
        if is_test_attr(&attrs) {
            continue;
        }
        let key = item_key(&it).map(|k| format!("{modpath}::{}", norm(&k)));
        if let Some(k) = &key {
            if unit.drops.iter().any(|d| glob(d, k)) {
                if !k.contains("::use") {
                    cx.dropped.push(k.clone());
                }
                continue;
            }
            if let Some(only) = unit.only.get(modpath) {
                if !matches!(it, syn::Item::Use(_)) && !only.iter().any(|d| glob(d, k)) {
                    cx.dropped.push(k.clone());
                    continue;
                }
            }
        }
        PathMap(unit).visit_item_mut(&mut it);
        let mut hoisted = vec![];
        if let Some(im) = derived_default(&it) {
            let k = format!("{modpath}::{}::default", impl_key(&im));
            if unit.fns.contains_key(&k) {
                cx.count("derive(Default) expanded");
                let t = emit_impl(cx, modpath, im, &mut hoisted);
                out.extend(t);
            }
        }
        let toks = match it {
            syn::Item::Mod(m) => {
                if m.content.is_some() {
                    die("SCAFFOLD", &format!("inline module {}", m.ident));
                }
                quote!() // file modules come from the unit file
            }
            syn::Item::Use(mut u) => {
                u.attrs.clear();
                u.vis = syn::parse_quote!(pub);
                quote!(#u)
            }
            syn::Item::Macro(_) => quote!(), // macro_rules collected beforehand
            syn::Item::Const(mut c) => {
                c.attrs.clear();
                c.vis = syn::parse_quote!(pub);
                if let syn::Type::Reference(r) = &mut *c.ty {
                    if r.lifetime.is_none() {
                        r.lifetime = Some(syn::Lifetime::new("'static", Span::call_site()));
                        cx.count("const &str -> &'static str");
                    }
                }
                quote!(#c)
            }
            syn::Item::Type(mut t) => {
                t.attrs.clear();
                t.vis = syn::parse_quote!(pub);
                quote!(#t)
            }
            syn::Item::Struct(mut s) => {
                let d = derive_tokens(cx, key.as_deref().unwrap(), &derives(&s.attrs));
                s.attrs.clear();
                s.vis = syn::parse_quote!(pub);
                publish_fields(&mut s.fields);
                quote!(#d #s)
            }
            syn::Item::Enum(mut s) => {
                let d = derive_tokens(cx, key.as_deref().unwrap(), &derives(&s.attrs));
                s.attrs.clear();
                s.vis = syn::parse_quote!(pub);
                for v in s.variants.iter_mut() {
                    v.attrs.clear();
                    for x in v.fields.iter_mut() {
                        x.attrs.clear();
                    }
                }
                quote!(#d #s)
            }
            syn::Item::Trait(mut t) => {
                t.attrs.clear();
                t.vis = syn::parse_quote!(pub);
                // `-> Self` needs a sized Self in a trait that has a declaration without a body
                let ret_self = t.items.iter().any(|i| matches!(i, syn::TraitItem::Fn(f) if f.sig.output.to_token_stream().to_string() == "-> Self"));
                if ret_self && t.supertraits.is_empty() {
                    t.colon_token = Some(Default::default());
                    t.supertraits.push(syn::parse_quote!(Sized));
                }
                let (name, gen, sup, colon) = (&t.ident, &t.generics, &t.supertraits, &t.colon_token);
                let mut inner = TokenStream::new();
                let tk = key.clone().unwrap();
                for i in t.items.iter_mut() {
                    match i {
                        syn::TraitItem::Fn(f) => {
                            f.attrs.clear();
                            let k = format!("{tk}::{}", f.sig.ident);
                            let d = f.default.as_mut();
                            inner.extend(emit_fn(cx, &k, quote!(), &mut f.sig, d, &mut hoisted));
                        }
                        other => other.to_tokens(&mut inner),
                    }
                }
                let extra = unit.rawimpl.get(&tk).cloned().unwrap_or_default();
                let g = cx.ghosts.add(extra);
                quote!(pub trait #name #gen #colon #sup { #inner #g })
            }
            syn::Item::Fn(mut f) => {
                let k = key.clone().unwrap();
                emit_fn(cx, &k, quote!(pub), &mut f.sig, Some(&mut f.block), &mut hoisted)
            }
            syn::Item::Impl(im) => emit_impl(cx, modpath, im, &mut hoisted),
            other => {
                die("SCAFFOLD", &format!("unsupported item {}", other.to_token_stream().to_string().chars().take(60).collect::<String>()));
            }
        };
        for h in hoisted {
            out.extend(h);
        }
        out.extend(toks);
    }
    out
}

/// what #[derive(Default)] generates
fn derived_default(it: &syn::Item) -> Option<syn::ItemImpl> {
    let (attrs, name, gen) = match it {
        syn::Item::Struct(s) => (&s.attrs, &s.ident, &s.generics),
        syn::Item::Enum(s) => (&s.attrs, &s.ident, &s.generics),
        _ => return None,
    };
    if !derives(attrs).iter().any(|d| d == "Default") {
        return None;
    }
    let body: TokenStream = match it {
        syn::Item::Struct(s) => match &s.fields {
            syn::Fields::Named(f) => {
                let n = f.named.iter().map(|f| &f.ident);
                quote!(Self { #(#n: ::core::default::Default::default()),* })
            }
            syn::Fields::Unnamed(f) => {
                let n = f.unnamed.iter().map(|_| quote!(::core::default::Default::default()));
                quote!(Self(#(#n),*))
            }
            syn::Fields::Unit => quote!(Self),
        },
        syn::Item::Enum(e) => {
            let v = e.variants.iter().find(|v| v.attrs.iter().any(|a| a.path().is_ident("default")))?;
            let v = &v.ident;
            quote!(Self::#v)
        }
        _ => return None,
    };
    let st = if gen.params.iter().any(|p| matches!(p, syn::GenericParam::Lifetime(_))) { quote!(#name<'_>) } else { quote!(#name) };
    syn::parse2(quote!(impl Default for #st { fn default() -> Self { #body } })).ok()
}

fn derive_tokens(cx: &mut Ctx, key: &str, have: &[String]) -> TokenStream {
    match cx.unit.derives.get(key) {
        None => quote!(),
        Some(list) => {
            for d in list {
                if d == "Structural" { continue; }
                if !have.contains(d) {
                    die("SCAFFOLD", &format!("{key} no longer derives {d}"));
                }
            }
            let ids: Vec<Ident> = list.iter().map(|d| Ident::new(d, Span::call_site())).collect();
            quote!(#[derive(#(#ids),*)])
        }
    }
}

fn emit_impl(cx: &mut Ctx, modpath: &str, mut im: syn::ItemImpl, hoisted: &mut Vec<TokenStream>) -> TokenStream {
    let ik = impl_key(&im);
    let key = format!("{modpath}::{ik}");
    im.attrs.clear();
    let is_trait = im.trait_.is_some();
    let mut inner = TokenStream::new();
    let mut split: Vec<TokenStream> = vec![];
    let im_trait = im.trait_.clone();
    let self_ty = im.self_ty.clone();
    let assoc: Vec<(Ident, syn::Type)> = im.items.iter().filter_map(|i| if let syn::ImplItem::Type(t) = i { Some((t.ident.clone(), t.ty.clone())) } else { None }).collect();
    for i in im.items.iter_mut() {
        match i {
            syn::ImplItem::Fn(f) => {
                if is_test_attr(&f.attrs) {
                    continue;
                }
                f.attrs.clear();
                let k = format!("{key}::{}", f.sig.ident);
                if cx.unit.drops.iter().any(|d| glob(d, &k)) {
                    cx.dropped.push(k);
                    continue;
                }
                let vis = if is_trait { quote!() } else { quote!(pub) };
                let contracted = cx.unit.fns.get(&k).map(|s| !s.contract.trim().is_empty() && !s.external).unwrap_or(false);
                if is_trait && contracted && has_closure(&f.block) {
                    // Verus emits the closure axioms too late inside trait impls: the body is verified
                    // as an inherent function with the same contract, the trait method gets the contract.
                    let (_, tp, _) = im_trait.clone().unwrap();
                    let mut f2 = f.clone();
                    f2.sig.ident = format_ident!("vxbody{}_{}", cx.fns.len(), f.sig.ident);
                    let mut sa = SelfAssoc { st: (*self_ty).clone(), tr: tp, types: assoc.clone() };
                    sa.visit_impl_item_fn_mut(&mut f2);
                    split.push(emit_fn(cx, &k, quote!(pub), &mut f2.sig, Some(&mut f2.block), hoisted));
                    let mut sig = f.sig.clone();
                    inner.extend(emit_stub(cx, &k, &mut sig));
                    cx.count("trait method with closures verified as an inherent function of the same contract");
                } else {
                    inner.extend(emit_fn(cx, &k, vis, &mut f.sig, Some(&mut f.block), hoisted));
                }
            }
            syn::ImplItem::Const(c) => {
                c.attrs.clear();
                c.to_tokens(&mut inner)
            }
            syn::ImplItem::Type(t) => {
                t.attrs.clear();
                t.to_tokens(&mut inner)
            }
            syn::ImplItem::Macro(_) => die("SCAFFOLD", "macro in impl"),
            _ => die("SCAFFOLD", "unsupported impl item"),
        }
    }
    let mut st = (*im.self_ty).clone();
    // `impl X<'_>` -> `impl<'a> X<'a>`
    let mut gen = im.generics.clone();
    let sts = norm(&st.to_token_stream().to_string());
    if sts.contains("<'_>") {
        st = syn::parse_str(&st.to_token_stream().to_string().replace("'_", "'a")).unwrap();
        gen.params.insert(0, syn::parse_quote!('a));
    }
    // `impl From<&X> for Y` -> `impl<'vx0> From<&'vx0 X> for Y`
    if let Some((_, p, _)) = &mut im.trait_ {
        struct Named(Vec<syn::Lifetime>);
        impl VisitMut for Named {
            fn visit_type_reference_mut(&mut self, t: &mut syn::TypeReference) {
                if t.lifetime.is_none() {
                    let l = syn::Lifetime::new(&format!("'vx{}", self.0.len()), proc_macro2::Span::call_site());
                    self.0.push(l.clone());
                    t.lifetime = Some(l);
                }
                syn::visit_mut::visit_type_reference_mut(self, t);
            }
        }
        let mut nm = Named(vec![]);
        nm.visit_path_mut(p);
        for l in nm.0.into_iter().rev() {
            gen.params.insert(0, syn::parse_quote!(#l));
        }
    }
    let wc = &gen.where_clause;
    let mut spec_impl = TokenStream::new();
    if let Some((_, p, _)) = &im.trait_ {
        let last = p.segments.last().unwrap();
        let tname = last.ident.to_string();
        if tname == "From" || tname == "TryFrom" {
            let syn::PathArguments::AngleBracketed(ab) = &last.arguments else { die("SCAFFOLD", "From args") };
            let a = &ab.args[0];
            let body = cx.unit.fromspecs.get(&key).cloned();
            let obeys = body.is_some();
            if obeys {
                cx.used.insert(format!("from:{key}"));
            }
            let text = body.unwrap_or_else(|| "vstd::prelude::arbitrary()".into());
            let g = cx.ghosts.add(text);
            if tname == "From" {
                spec_impl = quote!(
                    impl #gen vstd::std_specs::convert::FromSpecImpl<#a> for #st #wc {
                        open spec fn obeys_from_spec() -> bool { #obeys }
                        open spec fn from_spec(v: #a) -> #st { #g }
                    });
            } else {
                spec_impl = quote!(
                    impl #gen vstd::std_specs::convert::TryFromSpecImpl<#a> for #st #wc {
                        open spec fn obeys_try_from_spec() -> bool { #obeys }
                        open spec fn try_from_spec(v: #a) -> ::core::result::Result<#st, <#st as ::core::convert::TryFrom<#a>>::Error> { #g }
                    });
            }
        }
    }
    let extra = cx.unit.rawimpl.get(&key).cloned().unwrap_or_default();
    let g = cx.ghosts.add(extra);
    let body = match &im.trait_ {
        Some((bang, p, f)) => quote!(impl #gen #bang #p #f #st #wc { #inner #g }),
        None => quote!(impl #gen #st #wc { #inner #g }),
    };
    let sp = if split.is_empty() { quote!() } else { quote!(impl #gen #st #wc { #(#split)* }) };
    quote!(#spec_impl #body #sp)
}

fn has_closure(b: &syn::Block) -> bool {
    struct F(bool);
    impl<'a> syn::visit::Visit<'a> for F {
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {
            self.0 = true;
        }
    }
    let mut f = F(false);
    syn::visit::Visit::visit_block(&mut f, b);
    f.0
}

/// `Self::X` -> `<T as Trait>::X`
struct SelfAssoc {
    st: syn::Type,
    tr: syn::Path,
    types: Vec<(Ident, syn::Type)>,
}
impl VisitMut for SelfAssoc {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        if let syn::Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                let (st, tr, a) = (&self.st, &self.tr, &p.path.segments[1].ident);
                if let Some((_, v)) = self.types.iter().find(|(n, _)| n == a) {
                    *t = v.clone();
                    return;
                }
                *t = syn::parse_quote!(<#st as #tr>::#a);
                return;
            }
        }
        syn::visit_mut::visit_type_mut(self, t);
    }
}

/// the trait method: contract kept, body verified elsewhere
fn emit_stub(cx: &mut Ctx, key: &str, sig: &mut syn::Signature) -> TokenStream {
    StripAttrs.visit_signature_mut(sig);
    let sp = &cx.unit.fns[key];
    let mut names = vec![];
    for (i, a) in sig.inputs.iter_mut().enumerate() {
        match a {
            syn::FnArg::Receiver(_) => names.push("self".to_string()),
            syn::FnArg::Typed(pt) => {
                if !matches!(&*pt.pat, syn::Pat::Ident(_)) {
                    let id = format_ident!("__p{}", i);
                    *pt.pat = syn::parse_quote!(#id);
                }
                let syn::Pat::Ident(pi) = &*pt.pat else { unreachable!() };
                names.push(pi.ident.to_string());
            }
        }
    }
    let mut c = sp.contract.clone();
    for (i, n) in names.iter().enumerate().rev() {
        c = c.replace(&format!("$p{i}"), n);
    }
    let rname = Ident::new(sp.ret.as_deref().unwrap_or("r"), Span::call_site());
    let out = match &sig.output {
        syn::ReturnType::Default => quote!(),
        syn::ReturnType::Type(_, t) => quote!(-> (#rname: #t)),
    };
    let (ident, gen, inputs) = (&sig.ident, &sig.generics, &sig.inputs);
    let wc = &gen.where_clause;
    let b = cx.ghosts.add(format!("//@@stub {key}"));
    let ext = cx.ghosts.add("#[verifier::external_body] // contract proved on the inherent copy".into());
    let g = cx.ghosts.add(format!("//@@contract {key}\n{c}\n//@@endcontract"));
    quote!(#b #ext fn #ident #gen (#inputs) #out #wc #g { ::core::unimplemented!() })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str| args.iter().position(|a| a == n).map(|i| args[i + 1].clone());
    let unit_file = get("--unit").expect("--unit");
    let repo = get("--repo").expect("--repo");
    let out = get("--out").expect("--out");
    let probe = args.iter().any(|a| a == "--probe");
    let mut defs = BTreeMap::new();
    for (i, a) in args.iter().enumerate() {
        if a == "--define" {
            let (k, v) = args[i + 1].split_once('=').unwrap();
            defs.insert(k.to_string(), v.to_string());
        }
    }
    let mut unit = Unit::read(&unit_file, &defs);
    // functions the verifier cannot take in their current form: contract kept, body not verified
    for (i, a) in args.iter().enumerate() {
        if a == "--assume" {
            unit.fns.entry(args[i + 1].clone()).or_default().external = true;
        }
    }
    let mut cx = Ctx {
        unit: &unit,
        ghosts: Ghosts::default(),
        macros: BTreeMap::new(),
        const_names: BTreeSet::new(),
        used: BTreeSet::new(),
        fns: vec![],
        probe,
        desugared: BTreeMap::new(),
        dropped: vec![],
    };
    // module tree
    let mut parsed: Vec<(String, Vec<syn::Item>)> = vec![];
    for (mp, file) in &unit.modules {
        let path = format!("{repo}/{file}");
        let text = std::fs::read_to_string(&path).unwrap_or_else(|e| die("SCAFFOLD", &format!("{path}: {e}")));
        let f = syn::parse_file(&text).unwrap_or_else(|e| die("SCAFFOLD", &format!("{path}: {e}")));
        let mut items = f.items;
        mac::collect(&mut cx, &items);
        items = mac::expand_items(&mut cx, items, unit.only.contains_key(mp));
        parsed.push((mp.clone(), items));
    }
    // one tree of modules
    #[derive(Default)]
    struct Node {
        toks: TokenStream,
        sub: BTreeMap<String, Node>,
    }
    fn at<'n>(root: &'n mut Node, mp: &str) -> &'n mut Node {
        let mut n = root;
        if mp != "crate" {
            for s in mp.split("::") {
                n = n.sub.entry(s.to_string()).or_default();
            }
        }
        n
    }
    fn print_node(n: Node, cx: &mut Ctx) -> TokenStream {
        let mut t = n.toks;
        for (k, s) in n.sub {
            let inner = print_node(s, cx);
            let id = Ident::new(&k, Span::call_site());
            let lib = if k == "vxlib" { "" } else { "#[allow(unused_imports)] use crate::vxlib::*;" };
            let ext: String = if k == "vxlib" || cx.unit.externs.contains(&k) { String::new() } else { cx.unit.externs.iter().map(|e| format!("#[allow(unused_imports)] use crate::{e};\n")).collect() };
            let uses = cx.ghosts.add(format!("{ext}#[allow(unused_imports)] use vstd::prelude::*; #[allow(unused_imports)] use vstd::std_specs::iter::*; {lib}"));
            t.extend(quote!(pub mod #id { #uses #inner }));
        }
        t
    }
    let mut root = Node::default();
    rw::collect_helpers(&mut cx, &parsed);
    for (mp, items) in parsed {
        let t = emit_items(&mut cx, &mp, items);
        at(&mut root, &mp).toks.extend(t);
    }
    for (mp, text) in &unit.raws {
        let g = cx.ghosts.add(text.clone());
        at(&mut root, mp).toks.extend(quote!(#g));
    }
    for k in unit.fns.keys() {
        if !cx.used.contains(k) {
            die("SCAFFOLD", &format!("function under contract not found in the source: {k}"));
        }
    }
    for k in unit.fromspecs.keys() {
        if !cx.used.contains(&format!("from:{k}")) {
            die("SCAFFOLD", &format!("conversion under contract not found in the source: {k}"));
        }
    }
    let all = print_node(root, &mut cx);
    let text = print::print(&all, &cx.ghosts);
    let full = format!(
        "// GENERATED by vx from /repo; do not edit\n#![feature(allocator_api)]\n#![allow(unused, non_snake_case, non_camel_case_types, dead_code)]\nuse vstd::prelude::*;\nverus! {{\n{text}\n}}\nfn main() {{}}\n"
    );
    let mut f = std::fs::File::create(&out).unwrap();
    f.write_all(full.as_bytes()).unwrap();
    // summary for the driver
    for (k, c) in &cx.fns {
        println!("FN {} {}", if *c { "contract" } else { "plain" }, k);
    }
    for (k, n) in &cx.desugared {
        println!("DESUGAR {n} {k}");
    }
    for d in &cx.dropped {
        println!("DROP {d}");
    }
}
