//! `@@opt loops`: iterator chains whose closures change what they capture become the loops they stand for,
//! Option::map and friends become the match they stand for, and a table of non-capturing closures becomes
//! a table of objects with the same behaviour.
use crate::{norm, Ctx};
use proc_macro2::{Ident, TokenStream};
use quote::{format_ident, quote, ToTokens};
use syn::visit_mut::{self, VisitMut};

pub fn loops(cx: &mut Ctx, block: &mut syn::Block, hoisted: &mut Vec<TokenStream>) {
    if cx.unit.opts.iter().any(|o| o == "chains") {
        Lets { cx }.visit_block_mut(block);
    }
    Chains { cx, n: 0, ty: None, hoisted }.visit_block_mut(block);
}
/// `let v = it.map(f);` used once, in a chain -> written there; `for f in [a, b, c] { .. f(x) .. }` over functions -> the calls one after the other
struct Lets<'a, 'b> {
    cx: &'a mut Ctx<'b>,
}
fn count(t: TokenStream, name: &str) -> usize {
    t.into_iter().map(|t| match t {
        proc_macro2::TokenTree::Ident(i) => (i == name) as usize,
        proc_macro2::TokenTree::Group(g) => count(g.stream(), name),
        proc_macro2::TokenTree::Literal(l) => l.to_string().contains(&format!("{{{name}")) as usize * 2,
        _ => 0,
    }).sum()
}
fn replace(t: TokenStream, name: &str, by: &TokenStream) -> TokenStream {
    t.into_iter().map(|t| match t {
        proc_macro2::TokenTree::Ident(i) if i == name => by.clone(),
        proc_macro2::TokenTree::Group(g) => {
            let mut n = proc_macro2::Group::new(g.delimiter(), replace(g.stream(), name, by));
            n.set_span(g.span());
            proc_macro2::TokenTree::Group(n).into()
        }
        t => t.into(),
    }).collect()
}
struct Put { name: String, by: syn::Expr, done: bool }
impl VisitMut for Put {
    fn visit_expr_method_call_mut(&mut self, m: &mut syn::ExprMethodCall) {
        let is = |e: &syn::Expr| e.to_token_stream().to_string() == self.name;
        if m.method == "chain" && m.args.len() == 1 {
            let by = self.by.clone();
            if is(&m.args[0]) { m.args[0] = by; self.done = true; return; }
            if is(&m.receiver) { *m.receiver = by; self.done = true; return; }
        }
        visit_mut::visit_expr_method_call_mut(self, m);
    }
    fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
}
impl VisitMut for Lets<'_, '_> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        visit_mut::visit_block_mut(self, b);
        let mut i = 0;
        while i < b.stmts.len() {
            let cand = match &b.stmts[i] {
                syn::Stmt::Local(syn::Local { pat: syn::Pat::Ident(p), init: Some(init), .. }) if p.by_ref.is_none() && p.mutability.is_none() && p.subpat.is_none() && init.diverge.is_none() => match &*init.expr {
                    syn::Expr::MethodCall(m) if m.method == "map" && m.args.len() == 1 && matches!(m.args[0], syn::Expr::Closure(_)) => Some((p.ident.to_string(), (*init.expr).clone())),
                    _ => None,
                },
                _ => None,
            };
            if let Some((name, by)) = cand {
                let rest: usize = b.stmts[i + 1..].iter().map(|s| count(s.to_token_stream(), &name)).sum();
                if rest == 1 {
                    let mut p = Put { name, by, done: false };
                    for s in b.stmts[i + 1..].iter_mut() { p.visit_stmt_mut(s); }
                    if p.done {
                        self.cx.count("iterator bound to a name and chained once -> written where it is chained");
                        b.stmts.remove(i);
                        continue;
                    }
                }
            }
            i += 1;
        }
    }
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        visit_mut::visit_expr_mut(self, e);
        let syn::Expr::ForLoop(f) = e else { return };
        let (syn::Pat::Ident(p), syn::Expr::Array(a)) = (&*f.pat, &*f.expr) else { return };
        let path = |e: &syn::Expr| matches!(e, syn::Expr::Path(p) if p.path.segments.len() == 1 && p.path.segments[0].ident.to_string().contains('_'));
        if f.label.is_some() || p.subpat.is_some() || a.elems.is_empty() || !a.elems.iter().all(path) { return }
        let body = f.body.to_token_stream();
        let name = p.ident.to_string();
        let j = jumps(&syn::Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: f.body.clone() }));
        if j.ret || j.try_ || count(body.clone(), "break") + count(body.clone(), "continue") > 0 || count(body.clone(), &name) != 1 { return }
        let bodies = a.elems.iter().map(|x| replace(body.clone(), &name, &x.to_token_stream()));
        let new: syn::Expr = syn::parse_quote!({ #(#bodies)* });
        self.cx.count("loop over an array of functions -> its rounds one after the other");
        *e = new;
    }
}
struct Chains<'a, 'b> {
    cx: &'a mut Ctx<'b>,
    n: usize,
    ty: Option<syn::Type>,
    hoisted: &'a mut Vec<TokenStream>,
}
enum Stage {
    Map(syn::Expr),
    Filter(syn::Expr),
    FilterMap(syn::Expr),
    Number(Ident),
}
impl Clone for Stage {
    fn clone(&self) -> Self {
        match self {
            Stage::Map(e) => Stage::Map(e.clone()),
            Stage::Filter(e) => Stage::Filter(e.clone()),
            Stage::FilterMap(e) => Stage::FilterMap(e.clone()),
            Stage::Number(n) => Stage::Number(n.clone()),
        }
    }
}
#[derive(Default)]
struct Jumps {
    ret: bool,
    try_: bool,
}
impl<'a> syn::visit::Visit<'a> for Jumps {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.ret = true;
    }
    fn visit_expr_try(&mut self, t: &'a syn::ExprTry) {
        self.try_ = true;
        syn::visit::visit_expr_try(self, t);
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}
fn jumps(e: &syn::Expr) -> Jumps {
    let mut j = Jumps::default();
    syn::visit::Visit::visit_expr(&mut j, e);
    j
}
/// the block without `return`, where every `return` ends a guard `if c { return e; }`
fn unreturn(b: &syn::Block) -> Option<syn::Block> {
    let mut out: Vec<syn::Stmt> = vec![];
    for (i, s) in b.stmts.iter().enumerate() {
        let e = match s {
            syn::Stmt::Expr(e, _) => e.clone(),
            s => {
                let w: syn::Expr = syn::parse_quote!({ #s });
                if jumps(&w).ret {
                    return None;
                }
                out.push(s.clone());
                continue;
            }
        };
        if !jumps(&e).ret {
            out.push(s.clone());
            continue;
        }
        match e {
            syn::Expr::Return(r) => {
                let v = r.expr?;
                out.push(syn::Stmt::Expr(*v, None));
                return Some(syn::Block { stmts: out, ..b.clone() });
            }
            syn::Expr::If(f) if f.else_branch.is_none() => {
                if jumps(&f.cond).ret || !matches!(f.then_branch.stmts.last(), Some(syn::Stmt::Expr(syn::Expr::Return(_), _))) {
                    return None;
                }
                let then = unreturn(&f.then_branch)?;
                let rest = unreturn(&syn::Block { stmts: b.stmts[i + 1..].to_vec(), ..b.clone() })?;
                let c = &f.cond;
                out.push(syn::Stmt::Expr(syn::parse_quote!(if #c #then else #rest), None));
                return Some(syn::Block { stmts: out, ..b.clone() });
            }
            _ => return None,
        }
    }
    Some(syn::Block { stmts: out, ..b.clone() })
}
fn body_of(c: &syn::ExprClosure, may_try: bool) -> Option<syn::Expr> {
    let j = jumps(&c.body);
    if j.try_ && !may_try {
        return None;
    }
    if !j.ret {
        return Some((*c.body).clone());
    }
    match &*c.body {
        syn::Expr::Block(b) => {
            let b = unreturn(&b.block)?;
            Some(syn::parse_quote!(#b))
        }
        _ => None,
    }
}
/// `f(x)` written out
fn apply(f: &syn::Expr, args: &[TokenStream], may_try: bool) -> Option<TokenStream> {
    match f {
        syn::Expr::Closure(c) if c.inputs.len() == args.len() => {
            let b = body_of(c, may_try)?;
            let p = c.inputs.iter();
            let mut lets = quote!();
            for (p, a) in p.zip(args) {
                if !(p.to_token_stream().to_string() == a.to_string()) {
                    lets.extend(quote!(let #p = #a;));
                }
            }
            if lets.is_empty() {
                return Some(b.to_token_stream());
            }
            let stmts = match b {
                syn::Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() => { let s = b.block.stmts; quote!(#(#s)*) }
                b => b.to_token_stream(),
            };
            Some(quote!({ #lets #stmts }))
        }
        syn::Expr::Path(p) if args.len() == 1 => {
            let n = norm(&p.to_token_stream().to_string());
            let a = &args[0];
            Some(match n.as_str() {
                "Into::into" | "From::from" => quote!(::core::convert::From::from(#a)),
                _ if p.path.segments.len() == 1 && n.starts_with(|c: char| c.is_lowercase()) => quote!(crate::vxfn::call(&#p, #a)),
                _ => quote!(#p(#a)),
            })
        }
        _ => None,
    }
}
impl Chains<'_, '_> {
    fn stages(&self, mut e: syn::Expr) -> Option<(syn::Expr, Vec<Stage>)> {
        let mut st = vec![];
        loop {
            match &e {
                syn::Expr::MethodCall(m) if m.args.len() == 1 && m.turbofish.is_none() && matches!(m.args[0], syn::Expr::Closure(_) | syn::Expr::Path(_)) => {
                    let f = m.args[0].clone();
                    match m.method.to_string().as_str() {
                        "map" => st.push(Stage::Map(f)),
                        "filter" => st.push(Stage::Filter(f)),
                        "filter_map" => st.push(Stage::FilterMap(f)),
                        _ => break,
                    }
                    let r = (*m.receiver).clone();
                    e = r;
                }
                _ => break,
            }
        }
        st.reverse();
        Some((e, st))
    }
    fn pour(st: &[Stage], x: TokenStream, k: usize, may_try: bool, sink: &dyn Fn(TokenStream) -> TokenStream) -> Option<TokenStream> {
        let Some(s) = st.first() else { return Some(sink(x)) };
        let y = format_ident!("vx_s{}", k);
        Some(match s {
            Stage::Map(f) => {
                let b = apply(f, &[x], may_try)?;
                let rest = Self::pour(&st[1..], quote!(#y), k + 1, may_try, sink)?;
                quote!(let #y = #b; #rest)
            }
            Stage::Filter(f) => {
                let b = apply(f, &[quote!(&#x)], may_try)?;
                let rest = Self::pour(&st[1..], x, k + 1, may_try, sink)?;
                quote!(let #y = #b; if #y { #rest })
            }
            Stage::Number(n) => {
                let rest = Self::pour(&st[1..], quote!(#y), k + 1, may_try, sink)?;
                quote!(let #y = (#n, #x); #n = #n + 1; #rest)
            }
            Stage::FilterMap(f) => {
                let b = apply(f, &[x], may_try)?;
                let z = format_ident!("vx_t{}", k);
                let rest = Self::pour(&st[1..], quote!(#z), k + 1, may_try, sink)?;
                quote!(let #y = #b; match #y { Some(#z) => { #rest } None => {} })
            }
        })
    }
    /// the iterators chained one after the other, each with what is done to its items
    fn parts(&mut self, e: syn::Expr, decls: &mut TokenStream) -> Option<Vec<(syn::Expr, Vec<Stage>)>> {
        let (src, st) = self.stages(e)?;
        if self.cx.unit.opts.iter().any(|o| o == "chains") {
            let mut src = &src;
            while let syn::Expr::Paren(p) = src { src = &p.expr }
            if let syn::Expr::MethodCall(m) = src {
                if m.method == "chain" && m.args.len() == 1 {
                    let mut ps = self.parts((*m.receiver).clone(), decls)?;
                    ps.extend(self.parts(m.args[0].clone(), decls)?);
                    for p in ps.iter_mut() { p.1.extend(st.iter().cloned()) }
                    return Some(ps);
                }
                if m.method == "enumerate" && m.args.is_empty() {
                    let mut ps = self.parts((*m.receiver).clone(), decls)?;
                    if ps.len() > 1 || !ps[0].1.is_empty() {
                        let n = format_ident!("vx_n{}", self.n);
                        self.n += 1;
                        decls.extend(quote!(let mut #n: usize = 0;));
                        for p in ps.iter_mut() { p.1.push(Stage::Number(n.clone())); p.1.extend(st.iter().cloned()) }
                        return Some(ps);
                    }
                }
            }
            return Some(vec![(src.clone(), st)]);
        }
        Some(vec![(src, st)])
    }
    fn head(st: &mut [Stage]) -> (TokenStream, TokenStream) {
        let _ = st;
        (quote!(vx_i), quote!(vx_i))
    }
    fn collect(&mut self, mc: &syn::ExprMethodCall, tried: bool) -> Option<syn::Expr> {
        let mut numbers = quote!();
        let mut parts = self.parts((*mc.receiver).clone(), &mut numbers)?;
        if parts.len() == 1 && parts[0].1.is_empty() {
            return None;
        }
        let ty = match &mc.turbofish {
            Some(t) => match t.args.first() {
                Some(syn::GenericArgument::Type(t)) => Some(t.clone()),
                _ => None,
            },
            None => self.ty.clone(),
        };
        let tn = ty.as_ref().map(|t| norm(&t.to_token_stream().to_string())).unwrap_or_default();
        let out = format_ident!("vx_out{}", self.n);
        let (pat, x) = Self::head(&mut parts[0].1);
        let set = tn.starts_with("HashSet<");
        let (mut decl, mut sink): (TokenStream, Box<dyn Fn(TokenStream) -> TokenStream>);
        let o = out.clone();
        if tried {
            if !tn.starts_with("Result<Vec<") {
                return None;
            }
            let vt = match &ty {
                Some(syn::Type::Path(p)) => match &p.path.segments.last()?.arguments {
                    syn::PathArguments::AngleBracketed(a) => match a.args.first()? {
                        syn::GenericArgument::Type(t) => t.clone(),
                        _ => return None,
                    },
                    _ => return None,
                },
                _ => return None,
            };
            decl = quote!(let mut #out: #vt = crate::vxlib::vec_new(););
            sink = Box::new(move |y| quote!(match #y { Ok(vx_v) => { #o.push(vx_v); } Err(vx_e) => { return Err(vx_e); } }));
        } else if set {
            decl = quote!(let mut #out: #ty = HashSet::new(););
            sink = Box::new(move |y| quote!(#o.insert(#y);));
        } else {
            if tn.starts_with("Result<") || tn.starts_with("Option<") {
                return None;
            }
            decl = match &ty {
                Some(t) => quote!(let mut #out: #t = crate::vxlib::vec_new();),
                None => quote!(let mut #out = crate::vxlib::vec_new();),
            };
            sink = Box::new(move |y| quote!(#o.push(#y);));
        }
        let mut all = quote!();
        for (src, st) in &parts {
            let body = Self::pour(st, x.clone(), 0, tried, &*sink)?;
            all.extend(quote!(for #pat in #src { #body }));
        }
        let _ = (&mut decl, &mut sink);
        self.n += 1;
        self.cx.count("iterator chain ending in collect -> the loop it stands for");
        Some(syn::parse_quote!({ #decl #numbers #all #out }))
    }
    fn fold(&mut self, mc: &syn::ExprMethodCall) -> Option<syn::Expr> {
        let (src, mut st) = self.stages((*mc.receiver).clone())?;
        let (init, f) = (&mc.args[0], &mc.args[1]);
        let acc = format_ident!("vx_acc{}", self.n);
        let (pat, x) = Self::head(&mut st);
        let syn::Expr::Closure(_) = f else { return None };
        let a = acc.clone();
        let ok = std::cell::Cell::new(true);
        let body = Self::pour(&st, x, 0, false, &|y| match apply(f, &[quote!(#a), y], false) {
            Some(b) => quote!(#a = #b;),
            None => {
                ok.set(false);
                quote!()
            }
        })?;
        if !ok.get() {
            return None;
        }
        let ty = self.ty.as_ref().map(|t| quote!(: #t));
        self.n += 1;
        self.cx.count("iterator chain ending in fold -> the loop it stands for");
        Some(syn::parse_quote!({ let mut #acc #ty = #init; for #pat in #src { #body } #acc }))
    }
    fn option(&mut self, mc: &syn::ExprMethodCall) -> Option<syn::Expr> {
        let r = &mc.receiver;
        let name = mc.method.to_string();
        if mc.args.len() != 1 {
            return None;
        }
        let f = &mc.args[0];
        match name.as_str() {
            "map" => {
                let opt = match &**r {
                    syn::Expr::MethodCall(m) => m.method == "as_ref" && m.args.is_empty(),
                    syn::Expr::Match(m) => m.attrs.iter().any(|a| a.path().is_ident("vxopt")),
                    _ => false,
                };
                if !opt {
                    return None;
                }
                let b = apply(f, &[quote!(vx_o)], false)?;
                self.cx.count("Option::map -> the match it stands for");
                Some(syn::parse_quote!(#[vxopt] match #r { Some(vx_o) => { let vx_p = #b; Some(vx_p) } None => None }))
            }
            "is_none_or" | "is_some_and" => {
                let b = apply(f, &[quote!(vx_o)], false)?;
                let none = name == "is_none_or";
                self.cx.count("Option::is_none_or/is_some_and -> the match it stands for");
                Some(syn::parse_quote!(match #r { Some(vx_o) => { let vx_p: bool = #b; vx_p } None => #none }))
            }
            _ => None,
        }
    }
    /// `[(a, |i| Box::new(X(i))), ..] as [(A, F); N]`
    fn table(&mut self, c: &syn::ExprCast) -> Option<syn::Expr> {
        let syn::Expr::Array(a) = &*c.expr else { return None };
        let syn::Type::Array(_) = &*c.ty else { return None };
        let mut rows = vec![];
        let mut items = vec![];
        for e in &a.elems {
            let syn::Expr::Tuple(t) = e else { return None };
            let mut el = vec![];
            for e in &t.elems {
                let mut e = e;
                while let syn::Expr::Paren(p) = e {
                    e = &p.expr;
                }
                if let syn::Expr::Closure(f) = e {
                    let b = body_of(f, false)?;
                    let syn::Expr::Call(bx) = &b else { return None };
                    if norm(&bx.func.to_token_stream().to_string()) != "Box::new" || f.inputs.len() != 1 || bx.args.len() != 1 {
                        return None;
                    }
                    let n = format_ident!("VxFn{}", self.hoisted.len() + items.len());
                    let (p, v) = (&f.inputs[0], &bx.args[0]);
                    let g = self.cx.ghosts.add(format!("open spec fn made(&self, {p}: Idx<Function>) -> crate::vxfn::Made {{ crate::vxfn::made_of({v}) }}", p = p.to_token_stream(), v = v.to_token_stream()));
                    items.push(quote!(pub struct #n {} impl crate::vxfn::VxFn for #n { #g fn call(&self, #p: Idx<Function>) -> Box<dyn TransformationStrategy> { let vx_r: Box<dyn TransformationStrategy> = #b; vx_r } }));
                    el.push(quote!({ let vx_f: Box<dyn crate::vxfn::VxFn> = Box::new(#n {}); vx_f }));
                } else {
                    el.push(e.to_token_stream());
                }
            }
            rows.push(quote!((#(#el),*)));
        }
        self.hoisted.extend(items);
        self.cx.count("table of non-capturing closures -> table of objects with the same behaviour");
        Some(syn::parse_quote!(vec![#(#rows),*]))
    }
}
impl VisitMut for Chains<'_, '_> {
    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        let Some(init) = &mut l.init else { return };
        let ty = match &l.pat {
            syn::Pat::Type(t) => Some((*t.ty).clone()),
            _ => None,
        };
        let direct = |e: &syn::Expr| match e {
            syn::Expr::MethodCall(m) => m.method == "collect" || m.method == "fold",
            _ => false,
        };
        if direct(&init.expr) {
            if let syn::Expr::MethodCall(m) = &mut *init.expr {
                self.visit_expr_mut(&mut m.receiver);
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
            }
            let old = std::mem::replace(&mut self.ty, ty);
            let new = self.chain(&init.expr);
            self.ty = old;
            if let Some(n) = new {
                *init.expr = n;
            }
        } else {
            self.visit_expr_mut(&mut init.expr);
        }
        if let Some((_, d)) = &mut init.diverge {
            self.visit_expr_mut(d);
        }
    }
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::Try(t) = e {
            if let syn::Expr::MethodCall(mc) = &mut *t.expr {
                if mc.method == "collect" && mc.args.is_empty() {
                    self.visit_expr_mut(&mut mc.receiver);
                    if let Some(n) = self.collect(&mc.clone(), true) {
                        *e = n;
                    }
                    return;
                }
            }
        }
        if let syn::Expr::Cast(c) = e {
            if let Some(n) = self.table(c) {
                *e = n;
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
        let old = self.ty.take();
        if let Some(n) = self.chain(e) {
            *e = n;
        }
        self.ty = old;
    }
}
impl Chains<'_, '_> {
    fn chain(&mut self, e: &syn::Expr) -> Option<syn::Expr> {
        let syn::Expr::MethodCall(mc) = e else { return None };
        if mc.method == "collect" && mc.args.is_empty() {
            return self.collect(mc, false);
        }
        if mc.method == "fold" && mc.args.len() == 2 {
            return self.fold(mc);
        }
        self.option(mc)
    }
}
pub struct DropMarks;
impl VisitMut for DropMarks {
    fn visit_expr_match_mut(&mut self, m: &mut syn::ExprMatch) {
        m.attrs.clear();
        visit_mut::visit_expr_match_mut(self, m);
    }
}
#[allow(dead_code)]
fn unused(_: Ident) {}

/// `x.f` -> `x.m().f`, for the fields and methods a type has through its `Deref` (m is that `deref`)
pub struct Via<'a, 'b> {
    pub cx: &'a mut Ctx<'b>,
    pub method: String,
    pub names: Vec<String>,
}
impl VisitMut for Via<'_, '_> {
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        m.tokens = self.tokens(std::mem::take(&mut m.tokens));
    }
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        visit_mut::visit_expr_mut(self, e);
        let m = format_ident!("{}", self.method);
        match e {
            syn::Expr::Field(f) => if let syn::Member::Named(n) = &f.member {
                if self.names.iter().any(|x| n == x) {
                    let b = &f.base;
                    *f.base = syn::parse_quote!(#b.#m());
                    self.cx.count("field or method reached through Deref -> explicit deref");
                }
            },
            syn::Expr::MethodCall(c) => if self.names.iter().any(|x| c.method == x || x.ends_with('*') && c.method.to_string().starts_with(x.trim_end_matches('*'))) {
                let b = &c.receiver;
                *c.receiver = syn::parse_quote!(#b.#m());
                self.cx.count("field or method reached through Deref -> explicit deref");
            },
            _ => {}
        }
    }
}

impl Via<'_, '_> {
    fn has(&self, n: &str) -> bool {
        self.names.iter().any(|x| n == x || x.ends_with('*') && n.starts_with(x.trim_end_matches('*')))
    }
    fn tokens(&mut self, t: TokenStream) -> TokenStream {
        let m = format_ident!("{}", self.method);
        let v: Vec<proc_macro2::TokenTree> = t.into_iter().collect();
        let mut out = TokenStream::new();
        for (i, t) in v.iter().enumerate() {
            match t {
                proc_macro2::TokenTree::Ident(n) if i > 0 && matches!(&v[i - 1], proc_macro2::TokenTree::Punct(p) if p.as_char() == '.') && self.has(&n.to_string()) => out.extend(quote!(#m().#n)),
                proc_macro2::TokenTree::Group(g) => {
                    let n = proc_macro2::Group::new(g.delimiter(), self.tokens(g.stream()));
                    out.extend(std::iter::once(proc_macro2::TokenTree::Group(n)));
                }
                t => out.extend(std::iter::once(t.clone())),
            }
        }
        out
    }
}
