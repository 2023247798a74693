//! A small macro_rules! expander for the macros defined in the extracted files.
use crate::{die, Ctx};
use proc_macro2::{Delimiter, Group, Ident, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::BTreeMap;
use syn::parse::{ParseStream, Parser};

#[derive(Clone)]
enum M {
    Tok(TokenTree),
    Group(Delimiter, Vec<M>),
    Var(String, String),
    Rep(Vec<M>, Option<TokenTree>, char),
}
#[derive(Clone, Debug)]
enum B {
    One(TokenStream, bool),
    Many(Vec<BTreeMap<String, B>>),
}
#[derive(Clone)]
pub struct MacroRules {
    rules: Vec<(Vec<M>, TokenStream)>,
}

fn parse_matcher(ts: TokenStream, frag: bool) -> Vec<M> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => match &v[i + 1] {
                TokenTree::Ident(id) => {
                    if frag {
                        let TokenTree::Ident(f) = &v[i + 3] else { die("SCAFFOLD", "macro fragment") };
                        out.push(M::Var(id.to_string(), f.to_string()));
                        i += 4;
                    } else {
                        out.push(M::Var(id.to_string(), String::new()));
                        i += 2;
                    }
                    continue;
                }
                TokenTree::Group(g) => {
                    let inner = parse_matcher(g.stream(), frag);
                    let isop = |t: Option<&TokenTree>| match t {
                        Some(TokenTree::Punct(p)) if "*+?".contains(p.as_char()) => Some(p.as_char()),
                        _ => None,
                    };
                    if let Some(op) = isop(v.get(i + 2)) {
                        out.push(M::Rep(inner, None, op));
                        i += 3;
                    } else if let Some(op) = isop(v.get(i + 3)) {
                        out.push(M::Rep(inner, Some(v[i + 2].clone()), op));
                        i += 4;
                    } else {
                        die("SCAFFOLD", "macro repetition");
                    }
                    continue;
                }
                _ => die("SCAFFOLD", "macro $"),
            },
            TokenTree::Group(g) => out.push(M::Group(g.delimiter(), parse_matcher(g.stream(), frag))),
            t => out.push(M::Tok(t.clone())),
        }
        i += 1;
    }
    out
}

fn same(a: &TokenTree, b: &TokenTree) -> bool {
    a.to_string() == b.to_string()
}

fn match_seq(ms: &[M], input: ParseStream, b: &mut BTreeMap<String, B>) -> syn::Result<()> {
    for m in ms {
        match m {
            M::Tok(t) => {
                let got: TokenTree = input.parse()?;
                if !same(&got, t) {
                    return Err(input.error("token"));
                }
            }
            M::Group(d, inner) => {
                let got: TokenTree = input.parse()?;
                match got {
                    TokenTree::Group(g) if g.delimiter() == *d => {
                        let bb = std::cell::RefCell::new(std::mem::take(b));
                        let p = |s: ParseStream| match_seq(inner, s, &mut bb.borrow_mut());
                        let r = Parser::parse2(p, g.stream());
                        *b = bb.into_inner();
                        r?;
                    }
                    _ => return Err(input.error("group")),
                }
            }
            M::Var(n, f) => {
                let (ts, grp) = match f.as_str() {
                    "ident" => (input.call(<Ident as syn::ext::IdentExt>::parse_any)?.to_token_stream(), false),
                    "literal" => (input.parse::<syn::Lit>()?.to_token_stream(), false),
                    "expr" => (input.parse::<syn::Expr>()?.to_token_stream(), true),
                    "ty" => (input.parse::<syn::Type>()?.to_token_stream(), false),
                    "path" => (input.parse::<syn::Path>()?.to_token_stream(), false),
                    "pat_param" => (syn::Pat::parse_single(input)?.to_token_stream(), false),
                    "pat" => (syn::Pat::parse_multi_with_leading_vert(input)?.to_token_stream(), false),
                    "block" => (input.parse::<syn::Block>()?.to_token_stream(), false),
                    "vis" => (input.parse::<syn::Visibility>()?.to_token_stream(), false),
                    "tt" => (input.parse::<TokenTree>()?.to_token_stream(), false),
                    "lifetime" => (input.parse::<syn::Lifetime>()?.to_token_stream(), false),
                    _ => return Err(input.error("fragment")),
                };
                b.insert(n.clone(), B::One(ts, grp));
            }
            M::Rep(inner, sep, op) => {
                let mut all = vec![];
                loop {
                    if input.is_empty() {
                        break;
                    }
                    if *op == '?' && !all.is_empty() {
                        break;
                    }
                    let f = input.fork();
                    if !all.is_empty() {
                        if let Some(s) = sep {
                            match f.parse::<TokenTree>() {
                                Ok(t) if same(&t, s) => {}
                                _ => break,
                            }
                        }
                    }
                    let mut bb = BTreeMap::new();
                    if match_seq(inner, &f, &mut bb).is_err() {
                        break;
                    }
                    use syn::parse::discouraged::Speculative;
                    input.advance_to(&f);
                    all.push(bb);
                }
                if *op == '+' && all.is_empty() {
                    return Err(input.error("+"));
                }
                // distribute
                let mut names = vec![];
                vars(inner, &mut names);
                for n in names {
                    b.insert(n, B::Many(all.clone()));
                }
            }
        }
    }
    Ok(())
}
fn vars(ms: &[M], out: &mut Vec<String>) {
    for m in ms {
        match m {
            M::Var(n, _) => out.push(n.clone()),
            M::Group(_, i) | M::Rep(i, _, _) => vars(i, out),
            _ => {}
        }
    }
}

fn transcribe(ms: &[M], b: &BTreeMap<String, B>) -> TokenStream {
    let mut out = TokenStream::new();
    for m in ms {
        match m {
            M::Tok(t) => out.extend([t.clone()]),
            M::Group(d, i) => out.extend([TokenTree::Group(Group::new(*d, transcribe(i, b)))]),
            M::Var(n, _) => match b.get(n) {
                Some(B::One(ts, grp)) => {
                    if *grp && ts.clone().into_iter().count() > 1 {
                        out.extend([TokenTree::Group(Group::new(Delimiter::Parenthesis, ts.clone()))]);
                    } else {
                        out.extend(ts.clone());
                    }
                }
                Some(B::Many(_)) => die("SCAFFOLD", "macro depth"),
                None => {
                    if n == "crate" {
                        out.extend(quote!(crate));
                    } else {
                        die("SCAFFOLD", &format!("macro variable {n}"));
                    }
                }
            },
            M::Rep(i, sep, _) => {
                let mut names = vec![];
                vars(i, &mut names);
                let many = names.iter().find_map(|n| match b.get(n) {
                    Some(B::Many(v)) => Some(v.clone()),
                    _ => None,
                });
                let Some(many) = many else { die("SCAFFOLD", "macro repetition without variable") };
                for (k, bb) in many.iter().enumerate() {
                    if k > 0 {
                        if let Some(s) = sep {
                            out.extend([s.clone()]);
                        }
                    }
                    let mut env = b.clone();
                    env.extend(bb.clone());
                    out.extend(transcribe(i, &env));
                }
            }
        }
    }
    out
}

pub fn collect(cx: &mut Ctx, items: &[syn::Item]) {
    for i in items {
        if let syn::Item::Macro(m) = i {
            if m.mac.path.is_ident("macro_rules") {
                let name = m.ident.as_ref().unwrap().to_string();
                let v: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                let mut rules = vec![];
                let mut k = 0;
                while k + 3 < v.len() + 1 && k < v.len() {
                    let TokenTree::Group(a) = &v[k] else { break };
                    let TokenTree::Group(b) = &v[k + 3] else { break };
                    rules.push((parse_matcher(a.stream(), true), b.stream()));
                    k += 4;
                    if k < v.len() {
                        if let TokenTree::Punct(p) = &v[k] {
                            if p.as_char() == ';' {
                                k += 1;
                            }
                        }
                    }
                }
                cx.macros.insert(name, MacroRules { rules });
            }
        }
    }
}

pub fn expand(cx: &mut Ctx, name: &str, input: &TokenStream) -> Option<TokenStream> {
    let mr = cx.macros.get(name)?.clone();
    for (m, t) in &mr.rules {
        let b = std::cell::RefCell::new(BTreeMap::new());
        let p = |s: ParseStream| match_seq(m, s, &mut b.borrow_mut());
        if Parser::parse2(p, input.clone()).is_ok() {
            cx.count("macro_rules expansion");
            let body = parse_matcher(t.clone(), false);
            return Some(transcribe(&body, &b.into_inner()));
        }
    }
    die("SCAFFOLD", &format!("no rule of macro {name} matches"));
}

pub fn expand_items(cx: &mut Ctx, items: Vec<syn::Item>, partial: bool) -> Vec<syn::Item> {
    let mut out = vec![];
    for i in items {
        match &i {
            syn::Item::Macro(m) if !m.mac.path.is_ident("macro_rules") => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                if partial && !cx.macros.contains_key(&name) {
                    cx.dropped.push(format!("{name}! (macro defined elsewhere)"));
                    continue;
                }
                match expand(cx, &name, &m.mac.tokens) {
                    Some(ts) => {
                        let f: syn::File = syn::parse2(ts.clone())
                            .unwrap_or_else(|e| die("SCAFFOLD", &format!("expansion of {name}: {e}: {ts}")));
                        collect(cx, &f.items);
                        let inner = expand_items(cx, f.items, partial);
                        out.extend(inner);
                    }
                    None => die("SCAFFOLD", &format!("unknown item macro {name}")),
                }
            }
            _ => out.push(i),
        }
    }
    out
}

pub fn collect_one(cx: &mut Ctx, m: &syn::Item) {
    collect(cx, std::slice::from_ref(m));
}
