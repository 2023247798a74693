//! The desugarings inside function bodies.
use crate::{die, mac, norm, Ctx};
use crate::unit::FnSpec;
use proc_macro2::{Ident, Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};

pub struct Rw<'a, 'b> {
    pub cx: &'a mut Ctx<'b>,
    pub key: &'a str,
    pub sp: &'a FnSpec,
    pub sub: &'a dyn Fn(&str) -> String,
    pub loops: usize,
    pub closures: usize,
    pub afters: usize,
    pub tmp: usize,
    pub hoisted: Vec<TokenStream>,
}

impl<'a, 'b> Rw<'a, 'b> {
    pub fn new(cx: &'a mut Ctx<'b>, key: &'a str, sp: &'a FnSpec, sub: &'a dyn Fn(&str) -> String) -> Self {
        Rw { cx, key, sp, sub, loops: 0, closures: 0, afters: 0, tmp: 0, hoisted: vec![] }
    }
    fn fresh(&mut self, p: &str) -> Ident {
        self.tmp += 1;
        format_ident!("__{}{}", p, self.tmp)
    }
    fn ghost(&mut self, t: &str) -> Ident {
        let t = (self.sub)(t);
        self.cx.ghosts.add(t)
    }

    fn for_loop(&mut self, f: syn::ExprForLoop, n: usize) -> TokenStream {
        let (pat, e, body, label) = (&f.pat, &f.expr, &f.body, &f.label);
        let it = format_ident!("it{}", n);
        let all = format_ident!("all{}", n);
        let idx = format_ident!("idx{}", n);
        let x = format_ident!("x{}", n);
        let wrn = format_ident!("wrn{}", n);
        self.cx.count("for loop -> loop over the iterator");
        let inv = self.sp.loops.get(&n).cloned().unwrap_or_default();
        let inv = (self.sub)(&inv);
        // `ensures` part is separated by a line holding only "ensures"
        let (inv, ens) = match inv.split_once("\nensures\n") {
            Some((a, b)) => (a.to_string(), b.to_string()),
            None => match inv.strip_prefix("ensures\n") {
                Some(b) => (String::new(), b.to_string()),
                None => (inv, String::new()),
            },
        };
        let inv = inv.trim_start().strip_prefix("invariant").unwrap_or(&inv).to_string();
        let ens = if ens.trim().is_empty() { format!("{idx} == {all}.len(),") } else { ens };
        let dec = format!("IteratorSpec::decrease(&{it}).unwrap()");
        let inv = format!(
            "//@@loop {key} {n}\ninvariant_except_break\n IteratorSpec::obeys_prophetic_iter_laws(&{it}), IteratorSpec::decrease(&{it}) is Some,\n 0 <= {idx} <= {all}.len(), IteratorSpec::remaining(&{it}) == {all}.skip({idx}), IteratorSpec::will_return_none(&{it}) == {wrn},\ninvariant 0 <= {idx} <= {all}.len(),\n{inv}\nensures {wrn}, {ens}\ndecreases {dec}\n//@@endloop",
            key = self.key
        );
        let inv = self.cx.ghosts.add(inv);
        let lbefore = self.sp.lbefore.get(&n).cloned().unwrap_or_default();
        let lbefore = self.ghost(&lbefore);
        let lstart = self.sp.lstart.get(&n).cloned().unwrap_or_default();
        let probe = if self.cx.probe {
            format!("proof {{ if vstd::prelude::arbitrary::<bool>() {{ assert(false); /*PROBE loop {} {n}*/ }} }}", self.key)
        } else {
            String::new()
        };
        let lstart = self.ghost(&format!("proof {{ {idx} = {idx} + 1; }}\n{probe}\n{lstart}"));
        let lend = self.sp.lend.get(&n).cloned().unwrap_or_default();
        let lend = self.ghost(&lend);
        let lafter = self.sp.lafter.get(&n).cloned().unwrap_or_default();
        let lafter = self.ghost(&lafter);
        let g1 = self.ghost(&format!(
            "let ghost {all} = IteratorSpec::remaining(&{it});\nlet ghost mut {idx}: int = 0;\nlet ghost {wrn} = IteratorSpec::will_return_none(&{it});"
        ));
        let binds = match &**pat {
            syn::Pat::Ident(pi) if pi.subpat.is_some() => {
                let id = &pi.ident;
                let sub = &pi.subpat.as_ref().unwrap().1;
                quote!(let #id = #x; let #sub = #x;)
            }
            syn::Pat::Wild(_) => quote!(),
            syn::Pat::Reference(r) => {
                let p = &r.pat;
                quote!(let #p = *#x;)
            }
            p => quote!(let #p = #x;),
        };
        let mut tail_fix = quote!();
        let mut stmts = body.stmts.clone();
        if let Some(syn::Stmt::Expr(_, semi @ None)) = stmts.last_mut() {
            *semi = Some(Default::default());
        }
        if stmts.is_empty() {
            tail_fix = quote!();
        }
        // explicit type of the iterator is inferred
        quote!({
            let mut #it = ::core::iter::IntoIterator::into_iter(#e);
            #g1
            #lbefore
            #label loop #inv {
                let #x = match #it.next() { Some(#x) => #x, None => break };
                #lstart
                #binds
                #(#stmts)*
                #tail_fix
                #lend
            }
            #lafter
        })
    }

    fn closure(&mut self, c: syn::ExprClosure, n: usize) -> TokenStream {
        let spec = self.sp.closures.get(&n).cloned();
        let simple = |p: &syn::Pat| match p {
            syn::Pat::Ident(i) => i.subpat.is_none(),
            syn::Pat::Type(t) => matches!(&*t.pat, syn::Pat::Ident(i) if i.subpat.is_none()),
            _ => false,
        };
        let has_spec = spec.is_some();
        let spec = match spec {
            Some(s) => s,
            None if c.inputs.iter().all(simple) => return c.to_token_stream(),
            None => String::new(),
        };
        let mut types: Vec<String> = vec![];
        let mut ret = None;
        let mut rest = String::new();
        for l in spec.lines() {
            if let Some(t) = l.strip_prefix("types ") {
                types = t.split(';').map(|x| x.trim().to_string()).collect();
            } else if let Some(t) = l.strip_prefix("ret ") {
                ret = Some(t.trim().to_string());
            } else {
                rest.push_str(l);
                rest.push('\n');
            }
        }
        let mut params = vec![];
        let mut binds = quote!();
        let mut names = vec![];
        for (i, p) in c.inputs.iter().enumerate() {
            let (pat, ty): (syn::Pat, Option<syn::Type>) = match p {
                syn::Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
                p => (p.clone(), None),
            };
            let ty: Option<syn::Type> = match types.get(i) {
                Some(t) if !t.is_empty() && t != "_" => Some(syn::parse_str(t).unwrap()),
                _ => ty,
            };
            let name = match &pat {
                syn::Pat::Ident(pi) if pi.subpat.is_none() => pi.ident.clone(),
                syn::Pat::Ident(pi) => {
                    let x = self.fresh("c");
                    let id = &pi.ident;
                    let sp = &pi.subpat.as_ref().unwrap().1;
                    binds.extend(quote!(let #id = #x; let #sp = #x;));
                    x
                }
                syn::Pat::Wild(_) => self.fresh("c"),
                syn::Pat::Reference(r) => {
                    let x = self.fresh("c");
                    let p = &r.pat;
                    binds.extend(quote!(let #p = *#x;));
                    x
                }
                other => {
                    let x = self.fresh("c");
                    binds.extend(quote!(let #other = #x;));
                    x
                }
            };
            names.push(name.to_string());
            params.push(match ty {
                Some(t) => quote!(#name : #t),
                None => quote!(#name),
            });
        }
        for (i, nme) in names.iter().enumerate().rev() {
            rest = rest.replace(&format!("${i}"), nme);
        }
        let g = if has_spec { self.ghost(&format!("//@@closure {} {n}\n{rest}\n//@@endclosure", self.key)) } else { self.ghost("") };
        let ret = match ret {
            Some(r) => {
                let g = self.ghost(&format!("-> {r}"));
                quote!(#g)
            }
            None => quote!(),
        };
        let body = &c.body;
        let mv = &c.capture;
        if has_spec {
            self.cx.count("closure contract attached");
        } else {
            self.cx.count("closure parameter pattern -> let");
        }
        quote!(#mv |#(#params),*| #ret #g { #binds #body })
    }

    /// x.try_into().unwrap() / T::try_from(x).unwrap() / .expect(..)
    fn conv(&self, mc: &syn::ExprMethodCall) -> Option<(Option<syn::Type>, syn::Expr)> {
        if !self.cx.unit.opts.iter().any(|o| o == "conv") || !(mc.method == "unwrap" || mc.method == "expect") {
            return None;
        }
        match &*mc.receiver {
            syn::Expr::MethodCall(m) if m.method == "try_into" && m.args.is_empty() => Some((None, (*m.receiver).clone())),
            syn::Expr::Call(c) if c.args.len() == 1 => match &*c.func {
                syn::Expr::Path(p) if p.path.segments.len() == 2 && p.path.segments[1].ident == "try_from" => {
                    let t = &p.path.segments[0];
                    let ints = ["i32", "i64", "u32", "u64", "usize", "u8", "u16", "i8", "i16", "isize"];
                    if !ints.contains(&t.ident.to_string().as_str()) {
                        return None;
                    }
                    Some((Some(syn::parse_quote!(#t)), c.args[0].clone()))
                }
                _ => None,
            },
            _ => None,
        }
    }

    fn is_str_pat(&self, p: &syn::Pat) -> bool {
        match p {
            syn::Pat::Lit(l) => matches!(l.lit, syn::Lit::Str(_)),
            syn::Pat::Ident(i) => i.subpat.is_none() && self.cx.const_names.contains(&i.ident.to_string()),
            syn::Pat::Path(p) => p.path.segments.last().map(|s| self.cx.const_names.contains(&s.ident.to_string())).unwrap_or(false),
            syn::Pat::Tuple(t) => t.elems.iter().any(|e| self.is_str_pat(e)),
            syn::Pat::Or(o) => o.cases.iter().any(|e| self.is_str_pat(e)),
            syn::Pat::Paren(p) => self.is_str_pat(&p.pat),
            _ => false,
        }
    }

    fn str_match(&mut self, m: &syn::ExprMatch) -> TokenStream {
        self.cx.count("match on string constants -> chain of comparisons");
        let elems: Vec<syn::Expr> = match &*m.expr {
            syn::Expr::Tuple(t) => t.elems.iter().cloned().collect(),
            e => vec![e.clone()],
        };
        let tmps: Vec<Ident> = elems.iter().map(|_| self.fresh("s")).collect();
        let mut out = quote!();
        let mut closed = false;
        for arm in m.arms.iter() {
            let mut alts = vec![];
            fn split(p: &syn::Pat, out: &mut Vec<syn::Pat>) {
                match p {
                    syn::Pat::Or(o) => o.cases.iter().for_each(|c| split(c, out)),
                    syn::Pat::Paren(p) => split(&p.pat, out),
                    p => out.push(p.clone()),
                }
            }
            split(&arm.pat, &mut alts);
            let mut conds: Vec<TokenStream> = vec![];
            let mut binds = quote!();
            for alt in &alts {
                let pats: Vec<syn::Pat> = match alt {
                    syn::Pat::Tuple(t) if elems.len() > 1 => t.elems.iter().cloned().collect(),
                    syn::Pat::Wild(_) => elems.iter().map(|_| alt.clone()).collect(),
                    p => vec![p.clone()],
                };
                if pats.len() != elems.len() {
                    die("SCAFFOLD", "string match shape");
                }
                let mut cs: Vec<TokenStream> = vec![];
                for (p, t) in pats.iter().zip(&tmps) {
                    match p {
                        p if self.is_str_pat(p) && !matches!(p, syn::Pat::Or(_) | syn::Pat::Tuple(_)) => {
                            cs.push(quote!(crate::vxlib::str_eq(#t, #p)))
                        }
                        syn::Pat::Or(o) => {
                            let mut os = vec![];
                            for c in &o.cases {
                                os.push(quote!(crate::vxlib::str_eq(#t, #c)));
                            }
                            cs.push(quote!((#(#os)||*)));
                        }
                        syn::Pat::Wild(_) => {}
                        syn::Pat::Reference(r) if matches!(&*r.pat, syn::Pat::Wild(_)) => {}
                        syn::Pat::Ident(i) if i.subpat.is_none() => {
                            let id = &i.ident;
                            binds.extend(quote!(let #id = #t;));
                        }
                        _ => die("SCAFFOLD", "string match pattern"),
                    }
                }
                if cs.is_empty() {
                    conds.push(quote!(true));
                } else {
                    conds.push(quote!((#(#cs)&&*)));
                }
            }
            let body = &arm.body;
            let always = alts.len() == 1 && conds[0].to_string() == "true" && arm.guard.is_none();
            if arm.guard.is_some() {
                die("SCAFFOLD", "guard in a string match");
            }
            if always {
                out.extend(quote!({ #binds #body }));
                closed = true;
                break;
            }
            out.extend(quote!(if #(#conds)||* { #binds #body } else));
        }
        if !closed {
            out.extend(quote!({ crate::vxlib::vx_panic() }));
        }
        let lets = tmps.iter().zip(&elems).map(|(t, e)| quote!(let #t: &str = #e;));
        quote!({ #(#lets)* #out })
    }

    fn slice_arm_positions(p: &syn::Pat, out: &mut Vec<usize>) {
        match p {
            syn::Pat::Or(o) => o.cases.iter().for_each(|c| Self::slice_arm_positions(c, out)),
            syn::Pat::Paren(p) => Self::slice_arm_positions(&p.pat, out),
            syn::Pat::Tuple(t) => {
                for (i, e) in t.elems.iter().enumerate() {
                    if is_slice(e) {
                        out.push(i);
                    }
                }
            }
            _ => {}
        }
    }

    fn fix_slice_pat(p: &mut syn::Pat, pos: &[usize]) {
        match p {
            syn::Pat::Or(o) => o.cases.iter_mut().for_each(|c| Self::fix_slice_pat(c, pos)),
            syn::Pat::Paren(p) => Self::fix_slice_pat(&mut p.pat, pos),
            syn::Pat::Tuple(t) => {
                for (i, e) in t.elems.iter_mut().enumerate() {
                    if pos.contains(&i) && is_slice(e) {
                        let s = match e {
                            syn::Pat::Reference(r) => match &*r.pat {
                                syn::Pat::Slice(s) => s.clone(),
                                _ => unreachable!(),
                            },
                            syn::Pat::Slice(s) => s.clone(),
                            _ => unreachable!(),
                        };
                        let el: Vec<_> = s.elems.iter().cloned().collect();
                        *e = match el.len() {
                            0 => syn::parse_quote!(crate::vxlib::Sl::S0),
                            1 => {
                                let a = &el[0];
                                syn::parse_quote!(crate::vxlib::Sl::S1(#a))
                            }
                            2 => {
                                let (a, b) = (&el[0], &el[1]);
                                syn::parse_quote!(crate::vxlib::Sl::S2(#a, #b))
                            }
                            _ => die("SCAFFOLD", "slice pattern"),
                        };
                        if el.iter().any(|x| matches!(x, syn::Pat::Rest(_))) {
                            die("SCAFFOLD", "rest in slice pattern");
                        }
                    }
                }
            }
            _ => {}
        }
    }

    fn fmt_macro(&mut self, ts: &TokenStream) -> TokenStream {
        self.cx.count("format! -> concatenation");
        let parser = |s: syn::parse::ParseStream| {
            let f: syn::Expr = s.parse()?;
            let mut pos = vec![];
            let mut named: Vec<(String, syn::Expr)> = vec![];
            while !s.is_empty() {
                s.parse::<syn::Token![,]>()?;
                if s.is_empty() {
                    break;
                }
                if s.peek(syn::Ident) && s.peek2(syn::Token![=]) && !s.peek2(syn::Token![==]) {
                    let id: Ident = s.parse()?;
                    s.parse::<syn::Token![=]>()?;
                    named.push((id.to_string(), s.parse()?));
                } else {
                    pos.push(s.parse::<syn::Expr>()?);
                }
            }
            Ok((f, pos, named))
        };
        let (f, pos, mut named) = syn::parse::Parser::parse2(parser, ts.clone())
            .unwrap_or_else(|e| die("SCAFFOLD", &format!("format!: {e}")));
        let fs = const_str(&f);
        let mut pieces: Vec<TokenStream> = vec![];
        let mut lit = String::new();
        let mut ch = fs.chars().peekable();
        let mut next = 0;
        let mut lets = quote!();
        // evaluate arguments once, in order
        let mut posn = vec![];
        for p in pos {
            let mut p = p;
            self.visit_expr_mut(&mut p);
            let t = self.fresh("f");
            lets.extend(quote!(let #t = &(#p);));
            posn.push(t);
        }
        let mut namedn: BTreeMap<String, Ident> = BTreeMap::new();
        for (k, p) in named.iter_mut() {
            let k: &String = k;
            self.visit_expr_mut(p);
            let t = self.fresh("f");
            lets.extend(quote!(let #t = &(#p);));
            namedn.insert(k.clone(), t);
        }
        let flush = |lit: &mut String, pieces: &mut Vec<TokenStream>| {
            if !lit.is_empty() {
                let l = syn::LitStr::new(lit, Span::call_site());
                pieces.push(quote!(__fs = crate::vxlib::push_lit(__fs, #l);));
                lit.clear();
            }
        };
        while let Some(c) = ch.next() {
            match c {
                '{' if ch.peek() == Some(&'{') => {
                    ch.next();
                    lit.push('{');
                }
                '}' => {
                    ch.next();
                    lit.push('}');
                }
                '{' => {
                    let mut name = String::new();
                    for c in ch.by_ref() {
                        if c == '}' {
                            break;
                        }
                        name.push(c);
                    }
                    if name.contains(':') {
                        die("SCAFFOLD", "format spec");
                    }
                    flush(&mut lit, &mut pieces);
                    let arg = if name.is_empty() {
                        next += 1;
                        posn[next - 1].to_token_stream()
                    } else if let Ok(i) = name.parse::<usize>() {
                        posn[i].to_token_stream()
                    } else if let Some(t) = namedn.get(&name) {
                        t.to_token_stream()
                    } else {
                        let id = Ident::new(&name, Span::call_site());
                        quote!((&#id))
                    };
                    pieces.push(quote!(__fs = crate::vxlib::push_disp(__fs, #arg);));
                }
                c => lit.push(c),
            }
        }
        flush(&mut lit, &mut pieces);
        quote!({ #lets let mut __fs = crate::vxlib::str_new(); #(#pieces)* __fs })
    }

    fn macro_expr(&mut self, m: &syn::Macro) -> Option<TokenStream> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        match name.as_str() {
            "vec" => {
                // visit the elements
                let parser = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
                match syn::parse::Parser::parse2(parser, m.tokens.clone()) {
                    Ok(mut el) => {
                        for e in el.iter_mut() {
                            crate::PathMap(self.cx.unit).visit_expr_mut(e);
                            self.visit_expr_mut(e);
                        }
                        if el.is_empty() {
                            return Some(quote!(crate::vxlib::vec_new()));
                        }
                        Some(quote!(vec![#el]))
                    }
                    Err(_) => die("SCAFFOLD", "vec! form"),
                }
            }
            "matches" => {
                let parser = |s: syn::parse::ParseStream| {
                    let e: syn::Expr = s.parse()?;
                    s.parse::<syn::Token![,]>()?;
                    let p = syn::Pat::parse_multi_with_leading_vert(s)?;
                    let g: Option<syn::Expr> = if s.peek(syn::Token![if]) {
                        s.parse::<syn::Token![if]>()?;
                        Some(s.parse()?)
                    } else {
                        None
                    };
                    let _: Option<syn::Token![,]> = s.parse()?;
                    Ok((e, p, g))
                };
                let (e, p, g) = syn::parse::Parser::parse2(parser, m.tokens.clone())
                    .unwrap_or_else(|e| die("SCAFFOLD", &format!("matches!: {e}")));
                self.cx.count("matches! -> match");
                let g = g.map(|g| quote!(if #g));
                let mut me: syn::Expr = syn::parse_quote!(match #e { #p #g => true, _ => false });
                crate::PathMap(self.cx.unit).visit_expr_mut(&mut me);
                self.visit_expr_mut(&mut me);
                Some(quote!((#me)))
            }
            "assert" | "debug_assert" => {
                let parser = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
                let el = syn::parse::Parser::parse2(parser, m.tokens.clone())
                    .unwrap_or_else(|e| die("SCAFFOLD", &format!("assert!: {e}")));
                let mut e = el[0].clone();
                crate::PathMap(self.cx.unit).visit_expr_mut(&mut e);
                self.visit_expr_mut(&mut e);
                self.cx.count("assert! -> call requiring the condition");
                Some(quote!(crate::vxlib::vx_assert(#e)))
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                if let Some(c) = self.sp.panics.clone() {
                    self.cx.count("panic! -> call requiring the condition under which the contract allows a panic");
                    let g = self.ghost(&format!("crate::vxlib::vx_panic_if(Ghost({c}))"));
                    return Some(quote!(#g));
                }
                self.cx.count("panic! -> call requiring false");
                Some(quote!(crate::vxlib::vx_panic()))
            }
            "println" | "eprintln" => {
                self.cx.count("println! dropped");
                Some(quote!(()))
            }
            "format" => Some(self.fmt_macro(&m.tokens)),
            "write" => {
                let parser = |s: syn::parse::ParseStream| {
                    let f: syn::Expr = s.parse()?;
                    s.parse::<syn::Token![,]>()?;
                    Ok((f, s.parse::<TokenStream>()?))
                };
                let (mut f, rest) = syn::parse::Parser::parse2(parser, m.tokens.clone())
                    .unwrap_or_else(|e| die("SCAFFOLD", &format!("write!: {e}")));
                self.visit_expr_mut(&mut f);
                let t = self.fmt_macro(&rest);
                self.cx.count("write! -> append the formatted text");
                Some(quote!({ let __t = #t; crate::vxlib::put(#f, __t) }))
            }
            _ => mac::expand(self.cx, &name, &m.tokens),
        }
    }
}

fn deref_pat(p: &syn::Pat) -> bool {
    match p {
        syn::Pat::Or(o) => o.cases.iter().all(deref_pat),
        syn::Pat::Paren(p) => deref_pat(&p.pat),
        syn::Pat::Reference(r) => !matches!(&*r.pat, syn::Pat::Slice(_) | syn::Pat::Lit(_)),
        _ => false,
    }
}
fn undo_ref(p: &mut syn::Pat) {
    match p {
        syn::Pat::Or(o) => o.cases.iter_mut().for_each(undo_ref),
        syn::Pat::Paren(p) => undo_ref(&mut p.pat),
        syn::Pat::Reference(r) => {
            let inner = (*r.pat).clone();
            *p = inner;
        }
        _ => {}
    }
}
fn is_slice(p: &syn::Pat) -> bool {
    match p {
        syn::Pat::Slice(_) => true,
        syn::Pat::Reference(r) => matches!(&*r.pat, syn::Pat::Slice(_)),
        _ => false,
    }
}

/// evaluates string literals, concat! and stringify!
fn const_str(e: &syn::Expr) -> String {
    match e {
        syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => s.value(),
        syn::Expr::Paren(p) => const_str(&p.expr),
        syn::Expr::Group(p) => const_str(&p.expr),
        syn::Expr::Macro(m) if m.mac.path.is_ident("concat") => {
            let parser = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
            let el = syn::parse::Parser::parse2(parser, m.mac.tokens.clone())
                .unwrap_or_else(|e| die("SCAFFOLD", &format!("concat!: {e}")));
            el.iter().map(const_str).collect()
        }
        syn::Expr::Macro(m) if m.mac.path.is_ident("stringify") => norm(&m.mac.tokens.to_string()),
        _ => die("SCAFFOLD", "format string"),
    }
}

impl VisitMut for Rw<'_, '_> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut out: Vec<syn::Stmt> = vec![];
        let mut work: std::collections::VecDeque<syn::Stmt> = std::mem::take(&mut b.stmts).into();
        while let Some(s) = work.pop_front() {
            match s {
                syn::Stmt::Macro(m) => {
                    let name = m.mac.path.segments.last().unwrap().ident.to_string();
                    if self.cx.macros.contains_key(&name) {
                        let ts = mac::expand(self.cx, &name, &m.mac.tokens).unwrap();
                        let stmts = syn::parse::Parser::parse2(syn::Block::parse_within, ts.clone())
                            .unwrap_or_else(|e| die("SCAFFOLD", &format!("expansion of {name}: {e}: {ts}")));
                        let n = stmts.len();
                        for (i, mut st) in stmts.into_iter().enumerate().rev() {
                            if i + 1 == n && m.semi_token.is_some() {
                                if let syn::Stmt::Expr(_, semi @ None) = &mut st {
                                    *semi = Some(Default::default());
                                }
                            }
                            work.push_front(st);
                        }
                    } else if matches!(name.as_str(), "println" | "eprintln") {
                        self.cx.count("println! dropped");
                    } else {
                        let ts = self.macro_expr(&m.mac).unwrap_or_else(|| die("SCAFFOLD", &format!("unknown macro {name}")));
                        out.push(syn::Stmt::Expr(syn::Expr::Verbatim(ts), m.semi_token));
                    }
                }
                syn::Stmt::Item(it) => match it {
                    syn::Item::Enum(mut e) => {
                        e.attrs.clear();
                        e.vis = syn::parse_quote!(pub);
                        self.cx.count("local type hoisted to module level");
                        self.hoisted.push(e.to_token_stream());
                    }
                    syn::Item::Struct(mut e) => {
                        e.attrs.clear();
                        e.vis = syn::parse_quote!(pub);
                        for f in e.fields.iter_mut() {
                            f.vis = syn::parse_quote!(pub);
                        }
                        self.cx.count("local type hoisted to module level");
                        self.hoisted.push(e.to_token_stream());
                    }
                    syn::Item::Const(c) => {
                        let (i, t, e) = (c.ident, c.ty, c.expr);
                        out.push(syn::parse_quote!(let #i : #t = #e;));
                    }
                    syn::Item::Use(u) => {
                        let mut u = u;
                        u.attrs.clear();
                        self.cx.count("local use hoisted to module level");
                        self.hoisted.push(u.to_token_stream());
                    }
                    syn::Item::Type(u) => {
                        self.hoisted.push(u.to_token_stream());
                    }
                    other => die("SCAFFOLD", &format!("local item {}", other.to_token_stream())),
                },
                syn::Stmt::Local(mut l) => {
                    // let [init @ .., PAT] = &E[..] else { D };
                    if let Some(init) = &l.init {
                        if let (syn::Pat::Slice(ps), Some((_, div))) = (&l.pat, &init.diverge) {
                            let el: Vec<_> = ps.elems.iter().collect();
                            if el.len() == 2 {
                                if let syn::Pat::Ident(pi) = el[0] {
                                    if matches!(pi.subpat.as_ref().map(|s| &*s.1), Some(syn::Pat::Rest(_))) {
                                        let id = &pi.ident;
                                        let last = el[1];
                                        let mut e = (*init.expr).clone();
                                        let mut d = (**div).clone();
                                        // &body[..]  ->  body.as_slice()
                                        if let syn::Expr::Reference(r) = &e {
                                            if let syn::Expr::Index(ix) = &*r.expr {
                                                if norm(&ix.index.to_token_stream().to_string()) == ".." {
                                                    let b = &ix.expr;
                                                    e = syn::parse_quote!(#b.as_slice());
                                                }
                                            }
                                        }
                                        self.visit_expr_mut(&mut e);
                                        self.visit_expr_mut(&mut d);
                                        let s = self.fresh("sl");
                                        self.cx.count("slice let-else -> length test");
                                        let st: syn::Block = syn::parse_quote!({
                                            let #s = #e;
                                            if #s.len() == 0 #d
                                            let #id = crate::vxlib::slice_init(#s);
                                            match &#s[#s.len() - 1] { #last => {}, _ => #d }
                                        });
                                        out.extend(st.stmts);
                                        continue;
                                    }
                                }
                            }
                        }
                    }
                    let name = match &l.pat {
                        syn::Pat::Ident(i) => i.ident.to_string(),
                        syn::Pat::Type(t) => t.pat.to_token_stream().to_string(),
                        _ => String::new(),
                    };
                    visit_mut::visit_local_mut(self, &mut l);
                    out.push(syn::Stmt::Local(l));
                    if let Some(t) = self.sp.after.get(name.trim_start_matches("mut ")) {
                        self.afters += 1;
                        let g = self.ghost(&t.clone());
                        out.push(syn::Stmt::Expr(syn::Expr::Verbatim(quote!(#g)), None));
                    }
                }
                mut s => {
                    visit_mut::visit_stmt_mut(self, &mut s);
                    out.push(s);
                }
            }
        }
        b.stmts = out;
    }

    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        match e {
            syn::Expr::Macro(m) => {
                let mc = m.mac.clone();
                let name = mc.path.segments.last().unwrap().ident.to_string();
                if self.cx.macros.contains_key(&name) {
                    let ts = mac::expand(self.cx, &name, &mc.tokens).unwrap();
                    let mut ne: syn::Expr = syn::parse2(ts.clone()).unwrap_or_else(|er| die("SCAFFOLD", &format!("expansion of {name}: {er}: {ts}")));
                    self.visit_expr_mut(&mut ne);
                    *e = ne;
                    return;
                }
                match self.macro_expr(&mc) {
                    Some(ts) => *e = syn::Expr::Verbatim(ts),
                    None => die("SCAFFOLD", &format!("unknown macro {name}")),
                }
            }
            syn::Expr::ForLoop(f) => {
                let n = self.loops;
                self.loops += 1;
                visit_mut::visit_expr_for_loop_mut(self, f);
                let mut f = f.clone();
                if let syn::Expr::Array(a) = &*f.expr {
                    self.cx.count("iteration over an array literal -> over a Vec of the same elements");
                    let el = &a.elems;
                    f.expr = Box::new(syn::Expr::Verbatim(quote!(vec![#el])));
                }
                let ts = self.for_loop(f, n);
                *e = syn::Expr::Verbatim(ts);
            }
            syn::Expr::While(w) => {
                let n = self.loops;
                self.loops += 1;
                visit_mut::visit_expr_while_mut(self, w);
                let inv = self.sp.loops.get(&n).cloned().unwrap_or_default();
                let g = self.ghost(&format!("//@@loop {} {n}\n{inv}\n//@@endloop", self.key));
                let (l, c, b) = (&w.label, &w.cond, &w.body);
                let ls = self.sp.lstart.get(&n).cloned().unwrap_or_default();
                let ls = self.ghost(&ls);
                let st = &b.stmts;
                let ts = quote!(#l while #c #g { #ls #(#st)* });
                *e = syn::Expr::Verbatim(ts);
            }
            syn::Expr::Loop(w) => {
                let n = self.loops;
                self.loops += 1;
                visit_mut::visit_expr_loop_mut(self, w);
                let inv = self.sp.loops.get(&n).cloned().unwrap_or_default();
                let g = self.ghost(&format!("//@@loop {} {n}\n{inv}\n//@@endloop", self.key));
                let (l, b) = (&w.label, &w.body);
                let ls = self.sp.lstart.get(&n).cloned().unwrap_or_default();
                let ls = self.ghost(&ls);
                let st = &b.stmts;
                let ts = quote!(#l loop #g { #ls #(#st)* });
                *e = syn::Expr::Verbatim(ts);
            }
            syn::Expr::Closure(c) => {
                let n = self.closures;
                self.closures += 1;
                visit_mut::visit_expr_closure_mut(self, c);
                let c = c.clone();
                let ts = self.closure(c, n);
                *e = syn::Expr::Verbatim(ts);
            }
            syn::Expr::Match(m) => {
                visit_mut::visit_expr_match_mut(self, m);
                if m.arms.iter().any(|a| deref_pat(&a.pat)) && m.arms.iter().all(|a| deref_pat(&a.pat) || matches!(a.pat, syn::Pat::Wild(_))) {
                    self.cx.count("match e { &P => .. } -> match *e { P => .. }");
                    for a in m.arms.iter_mut() {
                        undo_ref(&mut a.pat);
                    }
                    let o = (*m.expr).clone();
                    m.expr = syn::parse_quote!((*#o));
                }
                if m.arms.iter().any(|a| self.is_str_pat(&a.pat)) {
                    let mc = m.clone();
                    let ts = self.str_match(&mc);
                    *e = syn::Expr::Verbatim(ts);
                    return;
                }
                let mut pos = vec![];
                for a in &m.arms {
                    Self::slice_arm_positions(&a.pat, &mut pos);
                }
                pos.sort();
                pos.dedup();
                if !pos.is_empty() {
                    self.cx.count("slice pattern -> length enum");
                    if let syn::Expr::Tuple(t) = &mut *m.expr {
                        for (i, x) in t.elems.iter_mut().enumerate() {
                            if pos.contains(&i) {
                                let o = x.clone();
                                *x = syn::parse_quote!(crate::vxlib::sl(#o));
                            }
                        }
                    } else {
                        die("SCAFFOLD", "slice pattern scrutinee");
                    }
                    for a in m.arms.iter_mut() {
                        Self::fix_slice_pat(&mut a.pat, &pos);
                    }
                }
            }
            syn::Expr::MethodCall(mc) if self.conv(mc).is_some() => {
                let (ty, mut arg) = self.conv(mc).unwrap();
                self.visit_expr_mut(&mut arg);
                self.cx.count("checked integer conversion, unwrapped -> conversion keeping the value");
                *e = syn::Expr::Verbatim(match ty {
                    Some(t) => quote!(crate::vxlib::conv::<_, #t>(#arg)),
                    None => quote!(crate::vxlib::conv(#arg)),
                });
            }
            syn::Expr::MethodCall(mc) if mc.method == "extend_from_slice" && mc.args.len() == 1 && self.cx.unit.opts.iter().any(|o| o == "ess") => {
                self.visit_expr_mut(&mut mc.receiver);
                self.visit_expr_mut(&mut mc.args[0]);
                self.cx.count(".extend_from_slice(s) -> function with the same meaning");
                let (r, a) = (&mc.receiver, &mc.args[0]);
                *e = syn::Expr::Verbatim(quote!(crate::vxlib::ess(&mut #r, #a)));
            }
            syn::Expr::Call(c) if self.cx.unit.opts.iter().any(|o| o == "ess") && matches!(&*c.func, syn::Expr::Path(p) if norm(&p.to_token_stream().to_string()) == "Vec::with_capacity") => {
                self.cx.count("capacity hint dropped");
                *e = syn::Expr::Verbatim(quote!(crate::vxlib::vec_new()));
            }
            syn::Expr::MethodCall(mc) => {
                let nc = self.closures;
                let is_cl = mc.args.len() == 1 && matches!(mc.args[0], syn::Expr::Closure(_));
                // closures of the receiver come first in source order
                self.visit_expr_mut(&mut mc.receiver);
                let n = self.closures;
                let _ = nc;
                for a in mc.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                let name = mc.method.to_string();
                if is_cl && (name == "any" || name == "all") {
                    if let Some(after) = self.sp.cafter.get(&n).cloned() {
                        self.cx.count("iterator named before .any/.all");
                        let g = self.ghost(&after);
                        let rem = format!("remc{n}");
                        let g0 = self.ghost(&format!("let ghost {rem} = IteratorSpec::remaining(&__it);"));
                        let (r, m, a) = (&mc.receiver, &mc.method, &mc.args[0]);
                        *e = syn::Expr::Verbatim(quote!({ let mut __it = #r; #g0 let __r = __it.#m(#a); #g __r }));
                        return;
                    }
                }
                if (name == "map_err" || name == "map") && mc.args.len() == 1 {
                    if let syn::Expr::Path(p) = &mc.args[0] {
                        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                        if segs.last().unwrap().chars().next().unwrap().is_uppercase() {
                            self.cx.count("constructor as function value -> closure");
                            let o = p.clone();
                            let n = segs.len();
                            if n >= 2 && segs[n - 2].chars().next().unwrap().is_uppercase() {
                                let mut t = o.path.clone();
                                t.segments.pop();
                                t.segments.pop_punct();
                                let last = t.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                                let gen = self.cx.unit.opts.iter().find_map(|o| o.strip_prefix(&format!("generic {last} ")).map(|n| n.to_string()));
                                let (tt, ctor) = match gen {
                                    Some(g) => (format!("{}<{g}>", t.to_token_stream()), format!("{}::<{g}>::{}", t.to_token_stream(), segs[n - 1])),
                                    None => (t.to_token_stream().to_string(), o.to_token_stream().to_string()),
                                };
                                let g = self.cx.ghosts.add(format!("-> (__r: {tt}) ensures __r == {ctor}(__e),"));
                                mc.args[0] = syn::Expr::Verbatim(quote!(|__e| #g { #o(__e) }));
                            } else {
                                mc.args[0] = syn::parse_quote!(|__e| #o(__e));
                            }
                        }
                    }
                }
                if name == "collect" && mc.turbofish.as_ref().is_some_and(|t| t.args.iter().next().is_some_and(|a| norm(&a.to_token_stream().to_string()).starts_with("Result<Vec<"))) {
                    self.cx.count(".collect::<Result<Vec<_>, _>>() -> loop with the same meaning");
                    let r = &mc.receiver;
                    *e = syn::Expr::Verbatim(quote!(crate::vxlib::collect_result(#r)));
                    return;
                }
                if name == "collect" {
                    if let syn::Expr::MethodCall(inner) = &*mc.receiver {
                        let (r, m) = (&inner.receiver, inner.method.to_string());
                        if m == "flatten" && inner.args.is_empty() && self.cx.unit.opts.iter().any(|o| o == "flatten") {
                            self.cx.count(".flatten().collect() -> function with the same meaning");
                            *e = syn::Expr::Verbatim(quote!(crate::vxlib::flatten_options(#r)));
                            return;
                        }
                        if m == "map" && inner.args.len() == 1 && self.cx.unit.opts.iter().any(|o| o == "setcollect") {
                            if let syn::Expr::MethodCall(f) = &*inner.receiver {
                                if f.method == "filter" && f.args.len() == 1 {
                                    self.cx.count(".filter(f).map(g).collect() -> function with the same meaning");
                                    let (r, p, g) = (&f.receiver, &f.args[0], &inner.args[0]);
                                    // numbered by its last closure
                                    let n = self.closures - 1;
                                    let after = self.sp.cafter.get(&n).cloned().unwrap_or_default();
                                    let after = self.ghost(&after);
                                    let g0 = self.ghost(&format!("let ghost remc{n} = IteratorSpec::remaining(&__it);"));
                                    *e = syn::Expr::Verbatim(quote!(({ let __it = #r; #g0 let __r = crate::vxlib::filter_map_set(__it, #p, #g); #after __r })));
                                    return;
                                }
                            }
                        }
                        if m == "flat_map" && inner.args.len() == 1 {
                            self.cx.count(".flat_map(f).collect() -> function with the same meaning");
                            let f = &inner.args[0];
                            *e = syn::Expr::Verbatim(quote!(crate::vxlib::flat_map_vec(#r, #f)));
                            return;
                        }
                        if m == "map" && inner.args.len() == 1 && matches!(norm(&inner.args[0].to_token_stream().to_string()).as_str(), "Into::into" | "From::from") {
                            self.cx.count(".map(Into::into).collect() -> function with the same meaning");
                            *e = match mc.turbofish.as_ref().and_then(|t| t.args.first()) {
                                Some(t) => syn::Expr::Verbatim(quote!({ let __v: #t = crate::vxlib::map_into(#r); __v })),
                                None => syn::Expr::Verbatim(quote!(crate::vxlib::map_into(#r))),
                            };
                            return;
                        }
                    }
                }
                if name == "join" && mc.args.len() == 1 {
                    self.cx.count(".join(sep) -> function with the same meaning");
                    let (r, a) = (&mc.receiver, &mc.args[0]);
                    *e = syn::Expr::Verbatim(quote!(crate::vxlib::join(&(#r), #a)));
                    return;
                }
                if (name == "into" || name == "try_into") && mc.args.is_empty() {
                    self.cx.count(".into()/.try_into() -> From::from/TryFrom::try_from");
                    let r = &mc.receiver;
                    *e = if name == "into" {
                        syn::Expr::Verbatim(quote!(::core::convert::From::from(#r)))
                    } else {
                        syn::Expr::Verbatim(quote!(::core::convert::TryFrom::try_from(#r)))
                    };
                    return;
                }
                if (name == "strip_prefix" || name == "strip_suffix" || name == "chain") && mc.args.len() == 1 {
                    self.cx.count(".strip_prefix/.strip_suffix/.chain -> function with the same meaning");
                    let (r, a) = (&mc.receiver, &mc.args[0]);
                    let f = Ident::new(&name, Span::call_site());
                    *e = syn::Expr::Verbatim(quote!(crate::vxlib::#f(#r, #a)));
                    return;
                }
                if name == "as_deref" && mc.args.is_empty() && self.cx.unit.opts.iter().any(|o| o == "asderef") {
                    self.cx.count(".as_deref() on an optional vector -> function with the same meaning");
                    let r = &mc.receiver;
                    *e = syn::Expr::Verbatim(quote!(crate::vxlib::vec_as_deref(&#r)));
                    return;
                }
                if (name == "unwrap" && mc.args.is_empty() || name == "expect" && mc.args.len() == 1) && self.cx.unit.opts.iter().any(|o| o == "maypanic") {
                    self.cx.count(".unwrap()/.expect(..) -> the value, if there is one (a panic gives no result)");
                    let r = &mc.receiver;
                    *e = syn::Expr::Verbatim(quote!(crate::vxlib::VxMust::must(#r)));
                    return;
                }
                if name == "find" && is_cl && self.cx.unit.opts.iter().any(|o| o == "find") {
                    self.cx.count(".find(f) -> function with the same meaning");
                    let (r, a) = (&mc.receiver, &mc.args[0]);
                    *e = syn::Expr::Verbatim(quote!(crate::vxlib::find(#r, #a)));
                    return;
                }
                if name == "enumerate" && mc.args.is_empty() {
                    self.cx.count(".enumerate() -> iterator with the same meaning");
                    let r = &mc.receiver;
                    *e = syn::Expr::Verbatim(quote!(crate::vxlib::enumerate(#r)));
                    return;
                }
                if name == "extend" && mc.args.len() == 1 && self.cx.unit.opts.iter().any(|o| o == "loops") {
                    self.cx.count(".extend(v) -> append");
                    let (r, a) = (&mc.receiver, &mc.args[0]);
                    *e = syn::Expr::Verbatim(quote!(crate::vxlib::extend(&mut #r, #a)));
                    return;
                }
                if name == "zip" && mc.args.len() == 1 {
                    self.cx.count(".zip(v) -> iterator with the same meaning");
                    let (r, a) = (&mc.receiver, &mc.args[0]);
                    *e = syn::Expr::Verbatim(quote!(crate::vxlib::zip(#r, #a)));
                    return;
                }
                if name == "extend" && mc.args.len() == 1 {
                    self.cx.count(".extend(v) -> append");
                    let (r, a) = (&mc.receiver, &mc.args[0]);
                    let t = self.fresh("e");
                    *e = syn::Expr::Verbatim(quote!({ let mut #t = #a; #r.append(&mut #t); }));
                }
            }
            syn::Expr::Call(c) if matches!(&*c.func, syn::Expr::Path(p) if norm(&p.to_token_stream().to_string()) == "String::from_utf8_lossy") => {
                visit_mut::visit_expr_call_mut(self, c);
                self.cx.count("String::from_utf8_lossy -> vxlib");
                c.func = syn::parse_quote!(crate::vxlib::from_utf8_lossy);
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

// ---------------------------------------------------------------------------
// local `macro_rules!` are registered, local `use` of single names are replaced
// by the paths they stand for

struct Prep<'a, 'b> {
    cx: &'a mut Ctx<'b>,
}
fn use_leaves(t: &syn::UseTree, pre: &mut Vec<String>, out: &mut Vec<(String, String)>, globs: &mut Vec<String>) {
    match t {
        syn::UseTree::Path(p) => {
            pre.push(p.ident.to_string());
            use_leaves(&p.tree, pre, out, globs);
            pre.pop();
        }
        syn::UseTree::Name(n) => out.push((n.ident.to_string(), format!("{}::{}", pre.join("::"), n.ident))),
        syn::UseTree::Rename(n) => out.push((n.rename.to_string(), format!("{}::{}", pre.join("::"), n.ident))),
        syn::UseTree::Glob(_) => globs.push(pre.join("::")),
        syn::UseTree::Group(g) => g.items.iter().for_each(|x| use_leaves(x, pre, out, globs)),
    }
}
fn subst_tokens(ts: TokenStream, map: &BTreeMap<String, TokenStream>) -> TokenStream {
    use proc_macro2::{Group, TokenTree};
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let isp = |t: Option<&TokenTree>, c: char| matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c);
    for i in 0..v.len() {
        match &v[i] {
            TokenTree::Group(g) => {
                let mut ng = Group::new(g.delimiter(), subst_tokens(g.stream(), map));
                ng.set_span(g.span());
                out.extend([TokenTree::Group(ng)]);
            }
            TokenTree::Ident(id) if map.contains_key(&id.to_string()) => {
                let prev = if i > 0 { v.get(i - 1) } else { None };
                let field = isp(v.get(i + 1), ':') && !isp(v.get(i + 2), ':');
                let range = isp(prev, '.') && i > 1 && isp(v.get(i - 2), '.');
                if isp(prev, ':') && i > 1 && isp(v.get(i - 2), ':') || (isp(prev, '.') && !range) || field {
                    out.extend([v[i].clone()]);
                } else {
                    out.extend(map[&id.to_string()].clone());
                }
            }
            t => out.extend([t.clone()]),
        }
    }
    out
}
impl VisitMut for Prep<'_, '_> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut map: BTreeMap<String, TokenStream> = BTreeMap::new();
        let mut keep = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                syn::Stmt::Item(it @ syn::Item::Macro(_)) => mac::collect_one(self.cx, &it),
                syn::Stmt::Macro(m) if m.mac.path.is_ident("macro_rules") => {
                    let it: syn::Item = syn::parse2(m.to_token_stream()).unwrap_or_else(|e| die("SCAFFOLD", &format!("local macro: {e}")));
                    mac::collect_one(self.cx, &it)
                }
                syn::Stmt::Macro(m) if self.cx.macros.contains_key(&m.mac.path.segments.last().unwrap().ident.to_string()) => {
                    let name = m.mac.path.segments.last().unwrap().ident.to_string();
                    let ts = mac::expand(self.cx, &name, &m.mac.tokens).unwrap();
                    let mut stmts = syn::parse::Parser::parse2(syn::Block::parse_within, ts.clone())
                        .unwrap_or_else(|e| die("SCAFFOLD", &format!("expansion of {name}: {e}: {ts}")));
                    if m.semi_token.is_some() {
                        if let Some(syn::Stmt::Expr(_, semi @ None)) = stmts.last_mut() {
                            *semi = Some(Default::default());
                        }
                    }
                    keep.extend(stmts);
                }
                syn::Stmt::Item(syn::Item::Use(u)) => {
                    let (mut l, mut g) = (vec![], vec![]);
                    use_leaves(&u.tree, &mut vec![], &mut l, &mut g);
                    for (a, p) in l {
                        self.cx.count("local use -> full path");
                        map.insert(a, p.parse().unwrap());
                    }
                    for g in g {
                        keep.push(syn::parse_str(&format!("use {g}::*;")).unwrap());
                    }
                }
                s => keep.push(s),
            }
        }
        b.stmts = keep;
        if !map.is_empty() {
            let ts = b.to_token_stream();
            let nb = subst_tokens(ts, &map);
            *b = syn::parse2(nb.clone()).unwrap_or_else(|e| die("SCAFFOLD", &format!("local use: {e}")));
        }
        visit_mut::visit_block_mut(self, b);
    }
}
pub fn prepare(cx: &mut Ctx, block: &mut syn::Block) {
    Prep { cx }.visit_block_mut(block);
    if cx.unit.opts.iter().any(|o| o == "localfns") {
        LocalFns { cx }.visit_block_mut(block);
        DeadCounters { cx }.visit_block_mut(block);
    }
}

// ---------------------------------------------------------------------------
// helper inlining: a function the unit has no contract for, without early exits,
// loops, generics or recursion, is replaced at its call sites by its body.

#[derive(Clone)]
pub struct Helper {
    pub params: Vec<(String, syn::Type)>,
    pub recv: bool,
    pub block: syn::Block,
}
thread_local! {
    static HELPERS: std::cell::RefCell<BTreeMap<String, Helper>> = Default::default();
}

struct Scan {
    bad: bool,
    calls: Vec<String>,
}
impl<'ast> syn::visit::Visit<'ast> for Scan {
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        match e {
            syn::Expr::Return(_) | syn::Expr::Try(_) => self.bad = true,
            syn::Expr::Call(c) => {
                if let syn::Expr::Path(p) = &*c.func {
                    self.calls.push(p.path.segments.last().unwrap().ident.to_string());
                }
            }
            syn::Expr::MethodCall(c) => self.calls.push(c.method.to_string()),
            _ => {}
        }
        syn::visit::visit_expr(self, e);
    }
}

fn no_self(ts: TokenStream, ty: &TokenStream) -> TokenStream {
    ts.into_iter()
        .flat_map(|t| match t {
            TokenTree::Ident(i) if i == "Self" => ty.clone(),
            TokenTree::Group(g) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), no_self(g.stream(), ty));
                n.set_span(g.span());
                TokenStream::from(TokenTree::Group(n))
            }
            t => TokenStream::from(t),
        })
        .collect()
}

pub fn collect_helpers(cx: &mut Ctx, parsed: &[(String, Vec<syn::Item>)]) {
    let mut cand: BTreeMap<String, Option<Helper>> = BTreeMap::new();
    let mut contracted: std::collections::BTreeSet<String> = Default::default();
    for k in cx.unit.fns.keys() {
        contracted.insert(k.rsplit("::").next().unwrap().to_string());
    }
    let mut seen: BTreeMap<String, usize> = BTreeMap::new();
    let mut add = |cx: &Ctx, key: String, sig: &syn::Signature, block: &syn::Block| {
        let name = sig.ident.to_string();
        *seen.entry(name.clone()).or_default() += 1;
        if cx.unit.fns.contains_key(&key) || cx.unit.noinline.contains(&key) || contracted.contains(&name) {
            return;
        }
        if cx.unit.drops.iter().any(|d| super::glob(d, &key)) {
            return;
        }
        let mut s = Scan { bad: !sig.generics.params.is_empty(), calls: vec![] };
        syn::visit::Visit::visit_block(&mut s, block);
        if s.bad || s.calls.contains(&name) {
            return;
        }
        let mut params = vec![];
        let mut recv = false;
        for a in &sig.inputs {
            match a {
                syn::FnArg::Receiver(_) => recv = true,
                syn::FnArg::Typed(t) => match &*t.pat {
                    syn::Pat::Ident(i) if i.subpat.is_none() && i.mutability.is_none() => {
                        params.push((i.ident.to_string(), (*t.ty).clone()))
                    }
                    _ => return,
                },
            }
        }
        let h = Helper { params, recv, block: block.clone() };
        let e = cand.entry(name).or_insert(Some(h.clone()));
        if let Some(old) = e {
            if old.block.to_token_stream().to_string() != h.block.to_token_stream().to_string() {
                *e = None; // ambiguous name
            }
        }
    };
    for (mp, items) in parsed {
        for it in items {
            match it {
                syn::Item::Fn(f) if !super::is_test_attr(&f.attrs) => add(cx, norm(&format!("{mp}::{}", f.sig.ident)), &f.sig, &f.block),
                syn::Item::Impl(im) if im.trait_.is_none() && !super::is_test_attr(&im.attrs) => {
                    for i in &im.items {
                        if let syn::ImplItem::Fn(f) = i {
                            // the body moves out of the impl: `Self` becomes the type it stands for
                            let ty = im.self_ty.to_token_stream();
                            let (sig, block) = match (
                                syn::parse2::<syn::Signature>(no_self(f.sig.to_token_stream(), &ty)),
                                syn::parse2::<syn::Block>(no_self(f.block.to_token_stream(), &ty)),
                            ) {
                                (Ok(s), Ok(b)) => (s, b),
                                _ => (f.sig.clone(), f.block.clone()),
                            };
                            add(cx, norm(&format!("{mp}::{}::{}", super::impl_key(im), f.sig.ident)), &sig, &block);
                        }
                    }
                }
                _ => {}
            }
        }
    }
    HELPERS.with(|h| {
        *h.borrow_mut() = cand.into_iter().filter(|(k, _)| seen[k] == 1).filter_map(|(k, v)| v.map(|v| (k, v))).collect();
    });
}

struct Subst<'a> {
    name: &'a str,
    to: syn::Expr,
    to_recv: syn::Expr,
}
impl VisitMut for Subst<'_> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        match e {
            syn::Expr::MethodCall(m) => {
                if let syn::Expr::Path(p) = &*m.receiver {
                    if p.path.is_ident(self.name) {
                        *m.receiver = self.to_recv.clone();
                    }
                }
            }
            syn::Expr::Field(m) => {
                if let syn::Expr::Path(p) = &*m.base {
                    if p.path.is_ident(self.name) {
                        *m.base = self.to_recv.clone();
                    }
                }
            }
            syn::Expr::Path(p) if p.path.is_ident(self.name) => {
                *e = self.to.clone();
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct Inliner<'a, 'b> {
    cx: &'a mut Ctx<'b>,
    depth: usize,
}
impl Inliner<'_, '_> {
    fn build(&mut self, h: &Helper, recv: Option<syn::Expr>, args: Vec<syn::Expr>) -> Option<syn::Expr> {
        if args.len() != h.params.len() || self.depth > 6 {
            return None;
        }
        let mut block = h.block.clone();
        if h.recv {
            let r = recv?;
            let simple = matches!(&r, syn::Expr::Path(_) | syn::Expr::Field(_));
            if !simple {
                return None;
            }
            Subst { name: "self", to: r.clone(), to_recv: r }.visit_block_mut(&mut block);
        }
        let mut lets: Vec<TokenStream> = vec![];
        let (mut ns, mut ts, mut es) = (vec![], vec![], vec![]);
        for ((n, t), a) in h.params.iter().zip(args) {
            let is_mut = matches!(t, syn::Type::Reference(r) if r.mutability.is_some());
            if is_mut {
                let to_recv = match &a {
                    syn::Expr::Reference(r) => (*r.expr).clone(),
                    syn::Expr::Path(_) => a.clone(),
                    _ => return None,
                };
                Subst { name: n, to: a.clone(), to_recv }.visit_block_mut(&mut block);
            } else {
                let id = Ident::new(n, Span::call_site());
                ns.push(quote!(#id));
                ts.push(t.to_token_stream());
                es.push(a.to_token_stream());
            }
        }
        if ns.len() == 1 {
            let (n, t, e) = (&ns[0], &ts[0], &es[0]);
            lets.push(quote!(let #n : #t = #e;));
        } else if !ns.is_empty() {
            lets.push(quote!(let (#(#ns),*) : (#(#ts),*) = (#(#es),*);));
        }
        self.depth += 1;
        self.visit_block_mut(&mut block);
        self.depth -= 1;
        let st = &block.stmts;
        self.cx.count("call of a helper without contract -> its body");
        let b: syn::Block = syn::parse_quote!({ #(#lets)* #(#st)* });
        Some(syn::Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: b }))
    }
}
impl VisitMut for Inliner<'_, '_> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        visit_mut::visit_expr_mut(self, e);
        let get = |n: &str| HELPERS.with(|h| h.borrow().get(n).cloned());
        match e {
            syn::Expr::Call(c) => {
                if let syn::Expr::Path(p) = &*c.func {
                    let segs = &p.path.segments;
                    let ok = segs.len() == 1 || (segs.len() == 2 && segs[0].ident.to_string().chars().next().unwrap().is_uppercase()) || segs[0].ident == "self" || segs[0].ident == "super";
                    if ok {
                        let n = segs.last().unwrap().ident.to_string();
                        if let Some(h) = get(&n) {
                            if !h.recv {
                                let args = c.args.iter().cloned().collect();
                                if let Some(ne) = self.build(&h, None, args) {
                                    *e = ne;
                                }
                            }
                        }
                    }
                }
            }
            syn::Expr::MethodCall(c) => {
                let n = c.method.to_string();
                if let Some(h) = get(&n) {
                    if h.recv {
                        let args = c.args.iter().cloned().collect();
                        let r = (*c.receiver).clone();
                        if let Some(ne) = self.build(&h, Some(r), args) {
                            *e = ne;
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

pub fn inline_helpers(cx: &mut Ctx, block: &mut syn::Block) {
    Inliner { cx, depth: 0 }.visit_block_mut(block);
}

/// the tail `I.map(|p| B).collect()` of a function returning Result<Vec<_>, _> becomes the loop it stands for
/// (the closure may then change variables it captures)
pub fn map_collect(cx: &mut Ctx, block: &mut syn::Block) {
    let Some(syn::Stmt::Expr(tail, None)) = block.stmts.last() else { return };
    let syn::Expr::MethodCall(mc) = tail else { return };
    if mc.method != "collect" || mc.turbofish.is_some() {
        return;
    }
    let syn::Expr::MethodCall(m) = &*mc.receiver else { return };
    if m.method != "map" || m.args.len() != 1 {
        return;
    }
    let syn::Expr::Closure(c) = &m.args[0] else { return };
    struct Ret(bool);
    impl<'a> syn::visit::Visit<'a> for Ret {
        fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
            self.0 = true;
        }
    }
    let mut r = Ret(false);
    syn::visit::Visit::visit_expr(&mut r, &c.body);
    if r.0 || c.inputs.len() != 1 {
        return;
    }
    cx.count(".map(f).collect() into a Result -> the loop it stands for");
    let (it, p, b) = (&m.receiver, &c.inputs[0], &c.body);
    let new: syn::Block = syn::parse_quote!({
        let mut vx_out = ::std::vec::Vec::new();
        for #p in #it {
            match #b { Ok(vx_v) => vx_out.push(vx_v), Err(vx_e) => return Err(vx_e) }
        }
        Ok(vx_out)
    });
    block.stmts.pop();
    block.stmts.extend(new.stmts);
}

/// `let [mut] f = || B;` only ever called as `f()`: the calls become `B` (which may change variables it captures)
struct LocalFns<'a, 'b> {
    cx: &'a mut Ctx<'b>,
}
impl VisitMut for LocalFns<'_, '_> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        visit_mut::visit_block_mut(self, b);
        let mut i = 0;
        while i < b.stmts.len() {
            if let Some((name, body)) = Self::candidate(&b.stmts[i]) {
                let mut rest: Vec<syn::Stmt> = b.stmts.split_off(i + 1);
                // a later `let` of the same name ends the scope of this one
                let ends = rest.iter().position(|s| match s {
                    syn::Stmt::Local(l) => {
                        let mut p = Binds(Default::default());
                        syn::visit::Visit::visit_pat(&mut p, &l.pat);
                        p.0.contains(&name)
                    }
                    _ => false,
                });
                let mut tail: Vec<syn::Stmt> = match ends { Some(k) => rest.split_off(k), None => vec![] };
                // no name of the body may be bound anew between the closure and its calls
                let mut names = Names(Default::default());
                syn::visit::Visit::visit_expr(&mut names, &body);
                let mut own = Binds(Default::default());
                syn::visit::Visit::visit_expr(&mut own, &body);
                names.0.retain(|n| !own.0.contains(n));
                let mut binds = Binds(Default::default());
                rest.iter().for_each(|s| syn::visit::Visit::visit_stmt(&mut binds, s));
                let mut all = Names(Default::default());
                rest.iter().for_each(|s| syn::visit::Visit::visit_stmt(&mut all, s));
                let mut calls = CallRepl { name: name.clone(), body: body.clone(), done: 0 };
                // the initial value of the ending `let` still sees this closure: leave such code alone
                let mut last = Names(Default::default());
                tail.iter().take(1).for_each(|s| if let syn::Stmt::Local(l) = s { if let Some(x) = &l.init { syn::visit::Visit::visit_expr(&mut last, &x.expr) } });
                if binds.0.is_disjoint(&names.0) && !binds.0.contains(&name) && all.0.contains(&name) && !last.0.contains(&name) {
                    let mut new = rest.clone();
                    new.iter_mut().for_each(|s| calls.visit_stmt_mut(s));
                    let mut left = Names(Default::default());
                    new.iter().for_each(|s| syn::visit::Visit::visit_stmt(&mut left, s));
                    if calls.done > 0 && !left.0.contains(&name) {
                        self.cx.count("local closure without parameters -> its body at the calls");
                        b.stmts.pop();
                        b.stmts.extend(new);
                        b.stmts.append(&mut tail);
                        continue;
                    }
                }
                b.stmts.append(&mut rest);
                b.stmts.append(&mut tail);
            }
            i += 1;
        }
    }
}
impl LocalFns<'_, '_> {
    fn candidate(s: &syn::Stmt) -> Option<(String, syn::Expr)> {
        let syn::Stmt::Local(l) = s else { return None };
        let syn::Pat::Ident(p) = &l.pat else { return None };
        let init = l.init.as_ref()?;
        if init.diverge.is_some() { return None }
        let syn::Expr::Closure(c) = &*init.expr else { return None };
        if c.capture.is_some() || !c.inputs.is_empty() { return None }
        struct Exits(bool);
        impl<'a> syn::visit::Visit<'a> for Exits {
            fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) { self.0 = true; }
            fn visit_expr_try(&mut self, _: &'a syn::ExprTry) { self.0 = true; }
        }
        let mut x = Exits(false);
        syn::visit::Visit::visit_expr(&mut x, &c.body);
        if x.0 { return None }
        Some((p.ident.to_string(), (*c.body).clone()))
    }
}
struct Names(BTreeSet<String>);
impl<'a> syn::visit::Visit<'a> for Names {
    fn visit_path(&mut self, p: &'a syn::Path) {
        if p.segments.len() == 1 { self.0.insert(p.segments[0].ident.to_string()); }
        syn::visit::visit_path(self, p);
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        fn go(t: TokenStream, s: &mut BTreeSet<String>) {
            for x in t { match x { proc_macro2::TokenTree::Ident(i) => { s.insert(i.to_string()); } proc_macro2::TokenTree::Group(g) => go(g.stream(), s), _ => {} } }
        }
        go(m.tokens.clone(), &mut self.0);
    }
}
struct Binds(BTreeSet<String>);
impl<'a> syn::visit::Visit<'a> for Binds {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.0.insert(p.ident.to_string());
        syn::visit::visit_pat_ident(self, p);
    }
}
struct CallRepl { name: String, body: syn::Expr, done: usize }
impl VisitMut for CallRepl {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::Call(c) = e {
            if c.args.is_empty() && matches!(&*c.func, syn::Expr::Path(p) if p.path.is_ident(self.name.as_str())) {
                let b = &self.body;
                *e = syn::parse_quote!((#b));
                self.done += 1;
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// `let mut n = 0;` only ever changed by `n += 1;` and printed: dropped
struct DeadCounters<'a, 'b> {
    cx: &'a mut Ctx<'b>,
}
fn bumps(s: &syn::Stmt, name: &str) -> bool {
    if let syn::Stmt::Expr(syn::Expr::Binary(b), Some(_)) = s {
        return matches!(b.op, syn::BinOp::AddAssign(_)) && matches!(&*b.right, syn::Expr::Lit(_)) && matches!(&*b.left, syn::Expr::Path(p) if p.path.is_ident(name));
    }
    false
}
struct DropBumps(String);
impl VisitMut for DropBumps {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        b.stmts.retain(|s| !bumps(s, &self.0));
        visit_mut::visit_block_mut(self, b);
    }
}
struct Prints(String, bool);
impl<'a> syn::visit::Visit<'a> for Prints {
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        let n = m.path.segments.last().unwrap().ident.to_string();
        if !matches!(n.as_str(), "println" | "eprintln") && m.tokens.to_string().contains(&self.0) { self.1 = true; }
    }
}
impl VisitMut for DeadCounters<'_, '_> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        visit_mut::visit_block_mut(self, b);
        for i in 0..b.stmts.len() {
            let syn::Stmt::Local(l) = &b.stmts[i] else { continue };
            let (syn::Pat::Ident(p), Some(init)) = (&l.pat, &l.init) else { continue };
            if p.mutability.is_none() || !matches!(&*init.expr, syn::Expr::Lit(_)) || init.diverge.is_some() { continue }
            let name = p.ident.to_string();
            let mut rest = syn::Block { brace_token: Default::default(), stmts: b.stmts[i + 1..].to_vec() };
            DropBumps(name.clone()).visit_block_mut(&mut rest);
            let mut left = Names(Default::default());
            syn::visit::Visit::visit_block(&mut left, &rest);
            let mut pr = Prints(name.clone(), false);
            syn::visit::Visit::visit_block(&mut pr, &rest);
            if left.0.contains(&name) || pr.1 { continue }
            self.cx.count("counter that is only printed -> dropped");
            b.stmts.truncate(i);
            b.stmts.extend(rest.stmts);
            return self.visit_block_mut(b);
        }
    }
}
