use crate::Ghosts;
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn print(ts: &TokenStream, g: &Ghosts) -> String {
    let mut p = P { out: String::new(), g, glue: true };
    p.stream(ts, true);
    p.out
}
struct P<'a> {
    out: String,
    g: &'a Ghosts,
    glue: bool,
}
impl P<'_> {
    fn sp(&mut self) {
        if !self.glue {
            self.out.push(' ');
        }
        self.glue = false;
    }
    fn nl(&mut self) {
        self.out.push('\n');
        self.glue = true;
    }
    fn stream(&mut self, ts: &TokenStream, block: bool) {
        for t in ts.clone() {
            match t {
                TokenTree::Group(gr) => {
                    let (o, c, b) = match gr.delimiter() {
                        Delimiter::Parenthesis => ("(", ")", false),
                        Delimiter::Bracket => ("[", "]", false),
                        Delimiter::Brace => ("{", "}", true),
                        Delimiter::None => ("(", ")", false),
                    };
                    self.sp();
                    self.out.push_str(o);
                    self.glue = true;
                    if b {
                        self.nl();
                    }
                    self.stream(&gr.stream(), b);
                    self.out.push_str(c);
                    self.glue = false;
                    if b {
                        self.nl();
                    }
                }
                TokenTree::Ident(i) => {
                    let s = i.to_string();
                    if let Some(n) = s.strip_prefix("__GHOST_").and_then(|x| x.strip_suffix("__")) {
                        let n: usize = n.parse().unwrap();
                        self.nl();
                        self.out.push_str(&self.g.0[n]);
                        self.nl();
                    } else {
                        self.sp();
                        self.out.push_str(&s);
                    }
                }
                TokenTree::Punct(p) => {
                    self.sp();
                    self.out.push(p.as_char());
                    if p.spacing() == Spacing::Joint || p.as_char() == '\'' {
                        self.glue = true;
                    }
                    if block && (p.as_char() == ';' || p.as_char() == ',') {
                        self.nl();
                    }
                }
                TokenTree::Literal(l) => {
                    self.sp();
                    self.out.push_str(&l.to_string());
                }
            }
        }
    }
}
