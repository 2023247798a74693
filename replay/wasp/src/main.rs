//! Concrete replay for the wasp-compiler properties: runs the real code on generated
//! programs and compares with an independent oracle written from the property text.
//! usage: replay-wasp PROPERTY quick|thorough SEED OUT
use std::collections::BTreeSet;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use wasp_compiler::ast::pest as p;
use wasp_compiler::ast::wasp as w;
use wasp_compiler::Error;

#[derive(Clone, Debug, PartialEq)]
struct Par(String, String);
#[derive(Clone, Debug, PartialEq)]
enum Adv {
    Global(String),
    Gen { f: String, a: Par, r: Par, g: String },
    Spe { mutable: bool, f: String, a: Vec<Par>, r: Vec<Par>, g: String },
    Call { pre: bool, n: String, g: String },
    CallIndPre { t: String, i: String, g: String },
    CallIndPost { t: String, g: String },
    BlockPre(String),
    BlockPost(String),
    LoopPre(String),
    LoopPost(String),
    Select { c: String, g: String },
    IfThen { c: String, g: String },
    IfThenElse { c: String, g: String },
    BrIf { c: String, l: String, g: String },
    BrTable { t: String, d: String, g: String },
}
use Adv::*;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 11
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    fn pick<'a, T: ?Sized>(&mut self, xs: &[&'a T]) -> &'a T {
        xs[self.below(xs.len())]
    }
}

// ---------- expected ----------
#[derive(Debug, PartialEq)]
enum Err {
    NonUnique(Vec<String>),
    BadPair(String, String),
    Cross(String),
    Dup(String),
    BadType(String),
}
fn wt(s: &str) -> Option<w::WasmType> {
    Some(match s {
        "I32" => w::WasmType::I32,
        "F32" => w::WasmType::F32,
        "I64" => w::WasmType::I64,
        "F64" => w::WasmType::F64,
        _ => return None,
    })
}
fn list_err(l: &[Par]) -> Option<Err> {
    for (i, x) in l.iter().enumerate() {
        if wt(&x.1).is_none() {
            return Some(Err::BadType(x.1.clone()));
        }
        if l[..i].iter().any(|y| y.0 == x.0) {
            return Some(Err::Dup(x.0.clone()));
        }
    }
    None
}
fn adv_err(a: &Adv) -> Option<Err> {
    match a {
        Spe { a, r, .. } => list_err(a).or_else(|| list_err(r)).or_else(|| {
            r.iter().find(|x| a.iter().any(|y| y.0 == x.0)).map(|x| Err::Cross(x.0.clone()))
        }),
        Gen { f, a, r, .. } => match (a.1.as_str(), r.1.as_str()) {
            ("Args", "Results") | ("DynArgs", "DynResults") | ("MutDynArgs", "MutDynResults") => {
                if *f == a.0 || *f == r.0 || a.0 == r.0 {
                    Some(Err::NonUnique(vec![f.clone(), a.0.clone(), r.0.clone()]))
                } else {
                    None
                }
            }
            _ => Some(Err::BadPair(a.1.clone(), r.1.clone())),
        },
        _ => None,
    }
}
fn err_of(e: &Error) -> Option<Err> {
    Some(match e {
        Error::NonUniqueParameters(v) => Err::NonUnique(v.clone()),
        Error::IncorrectArgsRessType(a, b) => Err::BadPair(a.clone(), b.clone()),
        Error::DuplicateArgsRessParameter(a) => Err::Cross(a.clone()),
        Error::DuplicateParameter(a) => Err::Dup(a.clone()),
        Error::UnsupportedIdentifierType { unsupported, .. } => Err::BadType(unsupported.clone()),
        _ => return None,
    })
}
fn same_kind_names(a: &Adv, b: &w::AdviceDefinition) -> bool {
    use w::TrapSignature as T;
    let t = match (a, b) {
        (Global(g), w::AdviceDefinition::AdviceGlobal(h)) => return g == h,
        (_, w::AdviceDefinition::AdviceTrap(t)) => t,
        _ => return false,
    };
    match (a, t) {
        (Gen { f, a, r, g }, T::TrapApply(t)) => match &t.apply_hook_signature {
            w::ApplyHookSignature::Gen(x) => {
                x.parameter_function == *f && x.parameter_arguments == a.0 && x.parameter_results == r.0 && t.body == *g
            }
            _ => false,
        },
        (Spe { f, g, .. }, T::TrapApply(t)) => match &t.apply_hook_signature {
            w::ApplyHookSignature::Spe(x) => x.apply_parameter == *f && t.body == *g,
            _ => false,
        },
        (Call { pre, n, g }, T::TrapCall(t)) => {
            matches!(t.call_qualifier, p::CallQualifier::Pre) == *pre && t.formal_target.0 == *n && t.body == *g
        }
        (CallIndPre { t, i, g }, T::TrapCallIndirectPre(x)) => x.formal_table.0 == *t && x.formal_index.0 == *i && x.body == *g,
        (CallIndPost { t, g }, T::TrapCallIndirectPost(x)) => x.formal_table.0 == *t && x.body == *g,
        (BlockPre(g), T::TrapBlockPre(x)) => x.body == *g,
        (BlockPost(g), T::TrapBlockPost(x)) => x.body == *g,
        (LoopPre(g), T::TrapLoopPre(x)) => x.body == *g,
        (LoopPost(g), T::TrapLoopPost(x)) => x.body == *g,
        (Select { c, g }, T::TrapSelect(x)) => x.select_formal_condition.0 == *c && x.body == *g,
        (IfThen { c, g }, T::TrapIfThen(x)) => x.branch_formal_condition.0 == *c && x.body == *g,
        (IfThenElse { c, g }, T::TrapIfThenElse(x)) => x.branch_formal_condition.0 == *c && x.body == *g,
        (BrIf { c, l, g }, T::TrapBrIf(x)) => x.branch_formal_condition.0 == *c && x.branch_formal_label.0 == *l && x.body == *g,
        (BrTable { t, d, g }, T::TrapBrTable(x)) => x.branch_formal_target.0 == *t && x.branch_formal_default.0 == *d && x.body == *g,
        _ => false,
    }
}
fn guest_of(a: &w::AdviceDefinition) -> String {
    use w::TrapSignature as T;
    match a {
        w::AdviceDefinition::AdviceGlobal(g) => g.clone(),
        w::AdviceDefinition::AdviceTrap(t) => match t {
            T::TrapApply(t) => t.body.clone(),
            T::TrapCall(t) => t.body.clone(),
            T::TrapBlockPre(t) => t.body.clone(),
            T::TrapBlockPost(t) => t.body.clone(),
            T::TrapLoopPre(t) => t.body.clone(),
            T::TrapLoopPost(t) => t.body.clone(),
            T::TrapSelect(t) => t.body.clone(),
            T::TrapCallIndirectPre(t) => t.body.clone(),
            T::TrapCallIndirectPost(t) => t.body.clone(),
            T::TrapIfThen(t) => t.body.clone(),
            T::TrapIfThenElse(t) => t.body.clone(),
            T::TrapBrIf(t) => t.body.clone(),
            T::TrapBrTable(t) => t.body.clone(),
        },
    }
}
fn src_guest(a: &Adv) -> &str {
    match a {
        Global(g) | BlockPre(g) | BlockPost(g) | LoopPre(g) | LoopPost(g) => g,
        Gen { g, .. } | Spe { g, .. } | Call { g, .. } | CallIndPre { g, .. } | CallIndPost { g, .. } | Select { g, .. }
        | IfThen { g, .. } | IfThenElse { g, .. } | BrIf { g, .. } | BrTable { g, .. } => g,
    }
}
fn params_ok(l: &[Par], c: &[w::WasmParameter]) -> bool {
    l.len() == c.len()
        && l.iter().zip(c).all(|(x, y)| x.0 == y.identifier && wt(&x.1) == Some(y.identifier_type) && y.get_type() == y.identifier_type)
}
/// join points of a compiled program: flags in the order of the struct, then signatures
fn jps(r: &w::Root) -> ([bool; 14], BTreeSet<String>) {
    use w::TrapSignature as T;
    let mut f = [false; 14];
    let mut s = BTreeSet::new();
    for a in &r.0 {
        let w::AdviceDefinition::AdviceTrap(t) = a else { continue };
        match t {
            T::TrapApply(t) => match &t.apply_hook_signature {
                w::ApplyHookSignature::Gen(_) => f[0] = true,
                w::ApplyHookSignature::Spe(x) => {
                    let ts = |l: &[w::WasmParameter]| l.iter().map(|x| x.identifier_type).collect::<Vec<_>>();
                    s.insert(format!("args {:?} results {:?}", ts(&x.parameters_arguments), ts(&x.parameters_results)));
                }
            },
            T::TrapIfThen(_) => f[1] = true,
            T::TrapIfThenElse(_) => f[2] = true,
            T::TrapBrIf(_) => f[3] = true,
            T::TrapBrTable(_) => f[4] = true,
            T::TrapCall(t) => f[if matches!(t.call_qualifier, p::CallQualifier::Pre) { 5 } else { 6 }] = true,
            T::TrapCallIndirectPre(_) => f[7] = true,
            T::TrapCallIndirectPost(_) => f[8] = true,
            T::TrapBlockPre(_) => f[9] = true,
            T::TrapBlockPost(_) => f[10] = true,
            T::TrapLoopPre(_) => f[11] = true,
            T::TrapLoopPost(_) => f[12] = true,
            T::TrapSelect(_) => f[13] = true,
        }
    }
    (f, s)
}
fn jps_reported(j: &wasp_compiler::joinpoints::JoinPoints) -> ([bool; 14], Option<BTreeSet<String>>) {
    let f = [
        j.generic, j.if_then, j.if_then_else, j.br_if, j.br_table, j.call_pre, j.call_post, j.call_indirect_pre,
        j.call_indirect_post, j.block_pre, j.block_post, j.loop_pre, j.loop_post, j.select,
    ];
    // the two type lists are private: read them from the derived Debug text
    let mut s = BTreeSet::new();
    for x in &j.specialized {
        let t = format!("{x:?}");
        let list = |n: &str| t.split(&format!("{n}: [")).nth(1).and_then(|r| r.split(']').next()).map(|r| r.to_string());
        match (list("argument_types"), list("result_types")) {
            (Some(a), Some(r)) => {
                s.insert(format!("args [{a}] results [{r}]"));
            }
            _ => return (f, None),
        }
    }
    (f, Some(s))
}

// ---------- rendering ----------
fn render(prog: &[Adv], sep: &mut dyn FnMut(bool) -> String) -> String {
    // tokens; between two tokens `sep(needed)` (needed: at least one blank or comment)
    let mut t: Vec<String> = vec![];
    let word = |s: &str| s.to_string();
    t.push(word("("));
    t.push(word("aspect"));
    for a in prog {
        t.push(word("("));
        let mut ws: Vec<String> = vec![];
        let par = |x: &str, y: &str| vec!["(".to_string(), x.to_string(), y.to_string(), ")".to_string()];
        match a {
            Global(_) => ws.push("global".into()),
            Gen { f, a, r, .. } => {
                ws.extend(["advice".into(), "apply".into()]);
                ws.extend(par(f, "WasmFunction"));
                ws.extend(par(&a.0, &a.1));
                ws.extend(par(&r.0, &r.1));
            }
            Spe { mutable, f, a, r, .. } => {
                ws.extend(["advice".into(), "apply".into()]);
                ws.extend(par(f, "WasmFunction"));
                for l in [a, r] {
                    ws.push("(".into());
                    if *mutable {
                        ws.push("Mut".into());
                    }
                    for x in l {
                        ws.extend(par(&x.0, &x.1));
                    }
                    ws.push(")".into());
                }
            }
            Call { pre, n, .. } => {
                ws.extend(["advice".into(), "call".into(), if *pre { "pre".into() } else { "post".into() }]);
                ws.extend(par(n, "FunctionIndex"));
            }
            CallIndPre { t, i, .. } => {
                ws.extend(["advice".into(), "call_indirect".into(), "pre".into()]);
                ws.extend(par(t, "FunctionTable"));
                ws.extend(par(i, "FunctionTableIndex"));
            }
            CallIndPost { t, .. } => {
                ws.extend(["advice".into(), "call_indirect".into(), "post".into()]);
                ws.extend(par(t, "FunctionTable"));
            }
            BlockPre(_) => ws.extend(["advice".into(), "block".into(), "pre".into()]),
            BlockPost(_) => ws.extend(["advice".into(), "block".into(), "post".into()]),
            LoopPre(_) => ws.extend(["advice".into(), "loop".into(), "pre".into()]),
            LoopPost(_) => ws.extend(["advice".into(), "loop".into(), "post".into()]),
            Select { c, .. } => {
                ws.extend(["advice".into(), "select".into()]);
                ws.extend(par(c, "Condition"));
            }
            IfThen { c, .. } => {
                ws.extend(["advice".into(), "if_then".into()]);
                ws.extend(par(c, "Condition"));
            }
            IfThenElse { c, .. } => {
                ws.extend(["advice".into(), "if_then_else".into()]);
                ws.extend(par(c, "Condition"));
            }
            BrIf { c, l, .. } => {
                ws.extend(["advice".into(), "br_if".into()]);
                ws.extend(par(c, "Condition"));
                ws.extend(par(l, "Label"));
            }
            BrTable { t, d, .. } => {
                ws.extend(["advice".into(), "br_table".into()]);
                ws.extend(par(t, "Target"));
                ws.extend(par(d, "Default"));
            }
        }
        t.extend(ws);
        t.push(format!(">>>GUEST>>>{}<<<GUEST<<<", src_guest(a)));
        t.push(word(")"));
    }
    t.push(word(")"));
    let mut out = sep(false);
    for i in 0..t.len() {
        if i > 0 {
            let al = |s: &str, last: bool| {
                let c = if last { s.chars().last() } else { s.chars().next() };
                c.map_or(false, |c| c.is_ascii_alphanumeric() || c == '_')
            };
            let needed = al(&t[i - 1], true) && al(&t[i], false);
            out.push_str(&sep(needed));
        }
        out.push_str(&t[i]);
    }
    out.push_str(&sep(false));
    out
}
fn plain(prog: &[Adv]) -> String {
    render(prog, &mut |_| " ".to_string())
}

type Res = Result<Result<wasp_compiler::CompilationResult, Error>, String>;
fn compile(text: &str) -> Res {
    catch_unwind(AssertUnwindSafe(|| wasp_compiler::compile(text))).map_err(|e| {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
        format!("panic: {}", m.unwrap_or_default())
    })
}
fn show(r: &Res) -> String {
    match r {
        Ok(Ok(c)) => format!("{c:?}"),
        Ok(Result::Err(e)) => format!("error: {e:?}"),
        Result::Err(m) => m.clone(),
    }
}

// ---------- property facets on one compiled program ----------
fn facet(prop: &str, prog: &[Adv], r: &Res) -> Option<String> {
    let first_err = prog.iter().find_map(adv_err);
    let first_bad = prog.iter().find(|a| adv_err(a).is_some());
    match prop {
        "C01" => match (r, &first_err) {
            (Ok(Ok(c)), None) => {
                if c.wasp_root.0.len() != prog.len() {
                    return Some(format!("{} advices compiled from {}", c.wasp_root.0.len(), prog.len()));
                }
                for (i, (a, b)) in prog.iter().zip(&c.wasp_root.0).enumerate() {
                    if !same_kind_names(a, b) {
                        return Some(format!("advice {i} {a:?} compiled to {b:?}"));
                    }
                }
                None
            }
            (Ok(Result::Err(e)), Some(x)) if err_of(e).as_ref() == Some(x) => None,
            (Ok(Ok(_)), Some(_)) => None, // acceptance of invalid signatures: C04, C05
            (_, x) => Some(format!("expected {}, got {}", x.as_ref().map_or("success".into(), |e| format!("{e:?}")), show(r))),
        },
        "C02" => match r {
            Ok(Ok(c)) => {
                let (f, s) = jps(&c.wasp_root);
                for j in [&c.join_points, &c.wasp_root.join_points()] {
                    let (rf, rs) = jps_reported(j);
                    if f != rf || rs.map_or(false, |rs| rs != s) {
                        return Some(format!("expected flags {f:?} signatures {s:?}, reported {j:?}"));
                    }
                }
                None
            }
            Result::Err(m) => Some(m.clone()),
            _ => None,
        },
        "C03" => match r {
            Ok(Ok(c)) => {
                for (a, b) in prog.iter().zip(&c.wasp_root.0) {
                    let Spe { a: pa, r: pr, f, .. } = a else { continue };
                    if list_err(pa).is_some() || list_err(pr).is_some() {
                        continue;
                    }
                    let w::AdviceDefinition::AdviceTrap(w::TrapSignature::TrapApply(t)) = b else { return Some(format!("{a:?} compiled to {b:?}")) };
                    let w::ApplyHookSignature::Spe(x) = &t.apply_hook_signature else { return Some(format!("{a:?} compiled to {b:?}")) };
                    if x.apply_parameter != *f || !params_ok(pa, &x.parameters_arguments) || !params_ok(pr, &x.parameters_results) {
                        return Some(format!("{a:?} compiled to {x:?}"));
                    }
                }
                None
            }
            _ => None,
        },
        "C04" | "C05" => {
            let spe = prop == "C04";
            let mine = |a: &Adv| if spe { matches!(a, Spe { .. }) } else { matches!(a, Gen { .. }) };
            match (r, first_bad) {
                (Ok(Ok(c)), None) => {
                    if spe {
                        return None;
                    }
                    for (a, b) in prog.iter().zip(&c.wasp_root.0) {
                        let Gen { a: pa, .. } = a else { continue };
                        let ok = match b {
                            w::AdviceDefinition::AdviceTrap(w::TrapSignature::TrapApply(t)) => match &t.apply_hook_signature {
                                w::ApplyHookSignature::Gen(g) => {
                                    same_kind_names(a, b)
                                        && matches!(
                                            (&g.generic_means, pa.1.as_str()),
                                            (w::GenericTarget::HighLevel, "Args")
                                                | (w::GenericTarget::Dynamic, "DynArgs")
                                                | (w::GenericTarget::MutableDynamic, "MutDynArgs")
                                        )
                                }
                                _ => false,
                            },
                            _ => false,
                        };
                        if !ok {
                            return Some(format!("{a:?} compiled to {b:?}"));
                        }
                    }
                    None
                }
                (Ok(Ok(c)), Some(b)) if mine(b) => Some(format!("accepted although {b:?} is invalid: {c:?}")),
                (Ok(Result::Err(e)), Some(b)) if mine(b) && err_of(e) != adv_err(b) => {
                    Some(format!("{b:?} must be rejected with {:?}, got {e:?}", adv_err(b)))
                }
                (Ok(Result::Err(e)), None) if prog.iter().any(mine) && prog.iter().all(|a| mine(a)) => {
                    Some(format!("valid program rejected: {e:?}"))
                }
                (Result::Err(m), _) if prog.iter().any(mine) => Some(m.clone()),
                _ => None,
            }
        }
        "C06" => match r {
            Ok(Ok(c)) => {
                for (a, b) in prog.iter().zip(&c.wasp_root.0) {
                    let Spe { mutable, .. } = a else { continue };
                    let w::AdviceDefinition::AdviceTrap(w::TrapSignature::TrapApply(t)) = b else { continue };
                    let w::ApplyHookSignature::Spe(x) = &t.apply_hook_signature else { continue };
                    if x.mutable_signature != *mutable {
                        return Some(format!("declared {} compiled to mutable_signature = {}", if *mutable { "Mut" } else { "non-Mut" }, x.mutable_signature));
                    }
                }
                None
            }
            _ => None,
        },
        "C07" => match r {
            Ok(Ok(c)) => {
                let (f, _) = jps(&c.wasp_root);
                let want = (f[0], f[1] || f[2] || f[3] || f[4] || f[13], f[5] || f[6] || f[7] || f[8]);
                let got = (c.wasp_root.instruments_generic_apply(), c.wasp_root.instruments_if(), c.wasp_root.instruments_call());
                (want != got).then(|| format!("(generic, if, call) = {got:?}, expected {want:?}"))
            }
            Result::Err(m) => Some(m.clone()),
            _ => None,
        },
        "C08" => {
            if first_err.is_some() {
                return None;
            }
            match r {
                Ok(Ok(c)) => {
                    for (a, b) in prog.iter().zip(&c.wasp_root.0) {
                        if guest_of(b) != src_guest(a) {
                            return Some(format!("guest code {:?} became {:?}", src_guest(a), guest_of(b)));
                        }
                        if let (Call { pre, .. }, w::AdviceDefinition::AdviceTrap(w::TrapSignature::TrapCall(t))) = (a, b) {
                            if matches!(t.call_qualifier, p::CallQualifier::Pre) != *pre {
                                return Some(format!("{a:?} compiled to {b:?}"));
                            }
                        }
                    }
                    None
                }
                // rejected: only the reading of the text is at stake here
                Ok(Result::Err(Error::PestError(m))) => Some(format!("well-formed text not parsed: {m}")),
                Ok(Result::Err(Error::ConversionError(m))) => Some(format!("well-formed text not converted: {m:?}")),
                Result::Err(m) => Some(m.clone()),
                _ => None,
            }
        }
        _ => unreachable!(),
    }
}

// ---------- generators ----------
const NAMES: &[&str] = &["a", "b", "c", "func", "Args", "Mut", "pre", "x", "longName", "A", "X", "FUNC", "aa", "ab", "LONGNAME", "post", "Results"];
const GUESTS: &[&str] = &[
    "", " ", "x", "\n", "  padded  ", "#| not a comment |#", "#|", "|#", ")(", "(advice call pre)", ">>>GUEST>>>", "<<<GUEST<< <", "<<GUEST<<<",
    "é✓🐢", "// x\n\ty();\r\n", "a #| b |# c", "\t tab", "\0", "a<b>>>c", "GUEST", ">>>GUEST>>>>>>GUEST>>>", "<<<GUEST", "\r\n", "pre", "post", "\u{feff}x", "\u{a0}", "\"", "\\n", "'",
];
/// literals of the compiler's current source (check.py's dictionary): names, guest texts and sizes made of them
#[derive(Default)]
struct Dict { names: Vec<String>, guests: Vec<String>, nums: Vec<usize> }
fn dict() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict::default();
        let Ok(t) = std::fs::read_to_string(std::env::var("VERIF_DICT").unwrap_or_default()) else { return d };
        for l in t.lines() {
            if let Some(n) = l.strip_prefix("i ").and_then(|n| n.parse::<usize>().ok()) {
                d.nums.push(n);
                continue;
            }
            let Some(h) = l.strip_prefix("s ") else { continue };
            let b: Vec<u8> = (0..h.len() / 2).filter_map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect();
            let Ok(w) = String::from_utf8(b) else { continue };
            if d.guests.len() < 240 {
                for g in [w.clone(), format!("{w}{w}"), format!("a{w}"), format!("{w}b"), format!(" x {w} y "), w.to_uppercase(), w.to_lowercase()] {
                    if guest_ok(&g) && !d.guests.contains(&g) { d.guests.push(g); }
                }
            }
            let w: String = w.chars().filter(|c| c.is_ascii_alphabetic()).collect();
            if !w.is_empty() && w.len() < 300 && d.names.len() < 160 {
                for n in [w.clone(), format!("{w}q"), format!("q{w}"), w.to_uppercase(), w.to_lowercase(), format!("{w}{w}")] {
                    if !d.names.contains(&n) { d.names.push(n); }
                }
            }
        }
        d
    })
}
fn name(r: &mut Rng) -> String {
    let d = &dict().names;
    if !d.is_empty() && r.below(6) == 0 { d[r.below(d.len())].clone() } else { r.pick(NAMES).to_string() }
}
fn guest(r: &mut Rng) -> String {
    let d = &dict().guests;
    if !d.is_empty() && r.below(6) == 0 { d[r.below(d.len())].clone() } else { r.pick(GUESTS).to_string() }
}
fn guest_ok(g: &str) -> bool {
    format!("{g}<<<GUEST<<<").find("<<<GUEST<<<") == Some(g.len())
}
fn all_kinds(n: &[&str; 3], g: &str) -> Vec<Adv> {
    let s = |x: &str| x.to_string();
    let pr = |x: &str, t: &str| Par(s(x), s(t));
    vec![
        Global(s(g)),
        Gen { f: s(n[0]), a: pr(n[1], "Args"), r: pr(n[2], "Results"), g: s(g) },
        Gen { f: s(n[0]), a: pr(n[1], "DynArgs"), r: pr(n[2], "DynResults"), g: s(g) },
        Gen { f: s(n[0]), a: pr(n[1], "MutDynArgs"), r: pr(n[2], "MutDynResults"), g: s(g) },
        Spe { mutable: false, f: s(n[0]), a: vec![pr(n[1], "I32")], r: vec![pr(n[2], "F64")], g: s(g) },
        Spe { mutable: true, f: s(n[0]), a: vec![pr(n[1], "I64")], r: vec![pr(n[2], "F32")], g: s(g) },
        Spe { mutable: false, f: s(n[0]), a: vec![pr(n[1], "F64"), pr(n[0], "I32")], r: vec![pr(n[2], "I32")], g: s(g) },
        Call { pre: true, n: s(n[0]), g: s(g) },
        Call { pre: false, n: s(n[0]), g: s(g) },
        CallIndPre { t: s(n[0]), i: s(n[1]), g: s(g) },
        CallIndPost { t: s(n[0]), g: s(g) },
        BlockPre(s(g)),
        BlockPost(s(g)),
        LoopPre(s(g)),
        LoopPost(s(g)),
        Select { c: s(n[0]), g: s(g) },
        IfThen { c: s(n[0]), g: s(g) },
        IfThenElse { c: s(n[0]), g: s(g) },
        BrIf { c: s(n[0]), l: s(n[1]), g: s(g) },
        BrTable { t: s(n[0]), d: s(n[1]), g: s(g) },
        // invalid ones
        Gen { f: s(n[0]), a: pr(n[1], "Args"), r: pr(n[2], "DynResults"), g: s(g) },
        Gen { f: s(n[0]), a: pr(n[0], "Args"), r: pr(n[2], "Results"), g: s(g) },
        Spe { mutable: true, f: s(n[0]), a: vec![pr(n[1], "I32")], r: vec![pr(n[1], "F64")], g: s(g) },
        Spe { mutable: false, f: s(n[0]), a: vec![pr(n[1], "I33")], r: vec![pr(n[2], "F64")], g: s(g) },
    ]
}
fn rand_adv(r: &mut Rng, bad: bool) -> Adv {
    let mut m = [String::new(), String::new(), String::new()];
    loop {
        for x in m.iter_mut() {
            *x = name(r);
        }
        let n = &m;
        if n[0] != n[1] && n[1] != n[2] && n[0] != n[2] || (bad && r.below(30) == 0) {
            break;
        }
    }
    let g = loop {
        let g = if r.below(4) == 0 { format!("{}{}", guest(r), guest(r)) } else { guest(r) };
        if guest_ok(&g) {
            break g;
        }
    };
    let n = [m[0].as_str(), m[1].as_str(), m[2].as_str()];
    let ks = all_kinds(&n, &g);
    let m = if bad { ks.len() } else { ks.len() - 4 };
    let k = r.below(m + 2);
    if k >= m {
        return rand_spe(r, bad, 6);
    }
    ks[k].clone()
}
fn rand_spe(r: &mut Rng, bad: bool, max: usize) -> Adv {
    const TS: &[&str] = &["I32", "F32", "I64", "F64"];
    const BAD: &[&str] = &["I31", "V128", "I322", "I3", "F23", "Args", "Mut", "Ii", "F3", "F322", "I64I64", "I16", "FF"];
    let alpha = |mut i: usize| {
        let mut s = String::new();
        loop {
            s.push((b'a' + (i % 26) as u8) as char);
            i /= 26;
            if i == 0 {
                return s;
            }
        }
    };
    let alpha = move |i: usize| match i % 5 { 1 => alpha(i - 1).to_uppercase(), 2 => alpha(i - 2).repeat(2), 3 => format!("{}b", alpha(i - 3)), 4 => alpha(i).repeat(40), _ => alpha(i) };
    let (na, nr) = (1 + r.below(max), 1 + r.below(max));
    let mut pool: Vec<usize> = (0..64).collect();
    let mut dn: BTreeSet<usize> = BTreeSet::new();
    let mut mk = |r: &mut Rng| {
        let i = r.below(pool.len());
        let x = pool.swap_remove(i);
        let d = &dict().names;
        // the names from the dictionary all differ
        if !d.is_empty() && dn.len() < d.len() && r.below(4) == 0 {
            let j = r.below(d.len());
            if dn.insert(j) { return Par(d[j].clone(), r.pick(TS).to_string()); }
        }
        let mut w = alpha(x);
        while d.contains(&w) { w.push_str(&alpha(x)); w.push('z'); }
        Par(w, r.pick(TS).to_string())
    };
    let mut a: Vec<Par> = (0..na).map(|_| mk(r)).collect();
    let mut q: Vec<Par> = (0..nr).map(|_| mk(r)).collect();
    if bad && r.below(2) == 0 {
        for _ in 0..1 + r.below(2) {
            match r.below(4) {
                0 => { let (i, j) = (r.below(na), r.below(na)); a[i].0 = a[j].0.clone(); }
                1 => { let (i, j) = (r.below(nr), r.below(nr)); q[i].0 = q[j].0.clone(); }
                2 => { let (i, j) = (r.below(nr), r.below(na)); q[i].0 = a[j].0.clone(); }
                _ => { let b = r.pick(BAD).to_string(); if r.below(2) == 0 { let i = r.below(na); a[i].1 = b } else { let i = r.below(nr); q[i].1 = b } }
            }
        }
    }
    Spe { mutable: r.below(2) == 0, f: r.pick(NAMES).to_string(), a, r: q, g: String::new() }
}

/// specialised apply through the public data types (reaches empty lists)
fn direct_spe(mutable: bool, f: &str, a: &[Par], q: &[Par]) -> Result<Result<w::ApplySpe, Error>, String> {
    let ta = |x: &Par| p::TypedArgument { identifier: x.0.clone(), type_identifier: x.1.clone() };
    let av: Vec<_> = a.iter().map(|x| p::ApplyFormalArgument(ta(x))).collect();
    let rv: Vec<_> = q.iter().map(|x| p::ApplyFormalResult(ta(x))).collect();
    let wf = p::ApplyFormalWasmF(f.to_string());
    catch_unwind(AssertUnwindSafe(|| {
        if mutable {
            w::ApplySpe::try_from(p::ApplySpeInter { apply_formal_wasm_f: wf, formal_arguments_arguments: av, formal_arguments_results: rv })
        } else {
            w::ApplySpe::try_from(p::ApplySpeIntro { apply_formal_wasm_f: wf, formal_arguments_arguments: av, formal_arguments_results: rv })
        }
    }))
    .map_err(|e| format!("panic: {}", e.downcast_ref::<String>().cloned().unwrap_or_default()))
}

struct Out {
    prop: String,
    cases: u64,
    nontrivial: BTreeSet<u64>,
    samples: Vec<String>,
    fails: Vec<(String, String)>,
    /// C06: outcomes seen, [declared Mut][mutable_signature], with one input each
    seen: [[Option<String>; 2]; 2],
}
fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
impl Out {
    fn note(&mut self, input: &str) {
        self.cases += 1;
        let fresh = self.nontrivial.insert(hash(input));
        if fresh && self.samples.len() < 4 && self.cases % 37 == 5 {
            self.samples.push(input.to_string());
        }
    }
    fn fail(&mut self, input: String, what: String) {
        if self.fails.len() < 10 {
            self.fails.push((input, what));
        }
    }
    fn program(&mut self, prog: &[Adv]) {
        let _ = self.text(prog, plain(prog));
    }
    fn text(&mut self, prog: &[Adv], text: String) -> Res {
        let r = compile(&text);
        self.note(&text);
        if let ("C06", Ok(Ok(c))) = (self.prop.as_str(), &r) {
            for (a, b) in prog.iter().zip(&c.wasp_root.0) {
                let Spe { mutable, .. } = a else { continue };
                let w::AdviceDefinition::AdviceTrap(w::TrapSignature::TrapApply(t)) = b else { continue };
                let w::ApplyHookSignature::Spe(x) = &t.apply_hook_signature else { continue };
                self.seen[*mutable as usize][x.mutable_signature as usize].get_or_insert(text.clone());
            }
        }
        if let Some(m) = facet(&self.prop.clone(), prog, &r) {
            self.fail(text, m);
        }
        r
    }
}

fn spe_lists(out: &mut Out, thorough: bool) {
    // all argument and result lists up to the bound over 3 names and 5 type names
    let names = ["a", "b", "c"];
    let types = ["I32", "F32", "I64", "F64", "I31"];
    let ps: Vec<Par> = names.iter().flat_map(|n| types.iter().map(move |t| Par(n.to_string(), t.to_string()))).collect();
    let max = if thorough { 3 } else { 2 };
    let mut lists: Vec<Vec<Par>> = vec![vec![]];
    let mut level = vec![vec![]];
    for _ in 0..max {
        let mut nl = vec![];
        for l in &level {
            for x in &ps {
                let mut l2: Vec<Par> = l.clone();
                l2.push(x.clone());
                nl.push(l2);
            }
        }
        lists.extend(nl.clone());
        level = nl;
    }
    for a in &lists {
        for q in &lists {
            if a.len() + q.len() > if thorough { 4 } else { 4 } {
                continue;
            }
            for m in [false, true] {
                spe_one(out, m, a, q);
            }
        }
    }
}
fn spe_one(out: &mut Out, m: bool, a: &[Par], q: &[Par]) {
    let r = direct_spe(m, "fn", a, q);
    let adv = Spe { mutable: m, f: "fn".into(), a: a.to_vec(), r: q.to_vec(), g: String::new() };
    let input = format!("ApplySpe{}::try_from({a:?}, {q:?})", if m { "Inter" } else { "Intro" });
    out.note(&input);
    let want = adv_err(&adv);
    let bad = match (out.prop.as_str(), &r) {
        ("C04", Result::Err(p)) => Some(p.clone()),
        ("C04", Ok(Ok(x))) => want.map(|e| format!("accepted as {x:?}, expected {e:?}")),
        ("C04", Ok(Result::Err(e))) => (err_of(e) != want).then(|| format!("rejected with {e:?}, expected {want:?}")),
        ("C03", Ok(Ok(x))) if want.is_none() => {
            (x.apply_parameter != "fn" || !params_ok(a, &x.parameters_arguments) || !params_ok(q, &x.parameters_results)).then(|| format!("compiled to {x:?}"))
        }
        ("C06", Ok(Ok(x))) if want.is_none() => {
            out.seen[m as usize][x.mutable_signature as usize].get_or_insert(input.clone());
            (x.mutable_signature != m).then(|| format!("declared {} compiled to mutable_signature = {}", if m { "Mut" } else { "non-Mut" }, x.mutable_signature))
        }
        _ => None,
    };
    if let Some(b) = bad {
        out.fail(input, b);
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let prop = args[1].clone();
    let thorough = args[2] == "thorough";
    let seed: u64 = args[3].parse().unwrap();
    let mut rng = Rng(0x9E3779B97F4A7C15 ^ (seed << 20) ^ 1);
    let mut out = Out { prop: prop.clone(), cases: 0, nontrivial: BTreeSet::new(), samples: vec![], fails: vec![], seen: Default::default() };

    // every kind alone, every ordered pair of kinds, (thorough) every ordered triple
    let ks = all_kinds(&["f", "a", "r"], " body() ");
    let ks2 = all_kinds(&["x", "y", "z"], "g2");
    out.program(&[]);
    for a in &ks {
        out.program(&[a.clone()]);
        for b in &ks2 {
            out.program(&[a.clone(), b.clone()]);
            if thorough {
                for c in &ks {
                    out.program(&[a.clone(), b.clone(), c.clone()]);
                }
            }
        }
    }
    // all names in all roles, all guests in all kinds
    for a in NAMES {
        for b in NAMES {
            for c in NAMES {
                if thorough || matches!(prop.as_str(), "C05" | "C01") {
                    for adv in all_kinds(&[a, b, c], "") {
                        out.program(&[adv]);
                    }
                }
            }
        }
    }
    for g in GUESTS.iter().filter(|g| guest_ok(g)) {
        for adv in all_kinds(&["f", "a", "r"], g) {
            out.program(&[adv]);
        }
    }
    for d in &dict().names {
        for (a, b, c) in [(d.as_str(), "q", "w"), ("q", d.as_str(), "w"), ("q", "w", d.as_str())] {
            for adv in all_kinds(&[a, b, c], "g") {
                out.program(&[adv]);
            }
        }
    }
    for g in &dict().guests {
        let ks = all_kinds(&["f", "a", "r"], g);
        for adv in &ks {
            out.program(&[adv.clone()]);
            out.program(&[ks[7].clone(), adv.clone(), ks[0].clone()]);
        }
    }
    if prop == "C05" {
        // all pairs of type names x all triples of names
        let ts = ["Args", "DynArgs", "MutDynArgs", "Results", "DynResults", "MutDynResults", "ARGS", "Argss", "Dyn", "DynArg", "Result", "MutDyn", "I32"];
        let ns = ["a", "b", "c"];
        let mut tv: Vec<&str> = ts.to_vec();
        tv.extend(dict().names.iter().filter(|n| n.len() > 1 && n.as_bytes()[0].is_ascii_uppercase() && !ts.contains(&n.as_str())).map(|s| s.as_str()).take(12));
        for &x in &tv {
            for &y in &tv {
                for i in 0..27 {
                    let (f, a, r) = (ns[i % 3], ns[i / 3 % 3], ns[i / 9]);
                    out.program(&[Gen { f: f.into(), a: Par(a.into(), x.into()), r: Par(r.into(), y.into()), g: String::new() }]);
                }
            }
        }
    }
    if matches!(prop.as_str(), "C03" | "C04" | "C06") {
        spe_lists(&mut out, thorough);
        for _ in 0..if thorough { 200_000 } else { 20_000 } {
            let Spe { mutable, mut a, mut r, .. } = rand_spe(&mut rng, true, 9) else { unreachable!() };
            match rng.below(20) { 0 => a.clear(), 1 => r.clear(), _ => {} }
            spe_one(&mut out, mutable, &a, &r);
        }
    }
    if matches!(prop.as_str(), "C02" | "C07") {
        // compiled programs built directly: every subset of the kinds
        for set in 0u32..1 << 13 {
            let mut v = vec![];
            let valid: Vec<&Adv> = vec![&ks[1], &ks[4], &ks[7], &ks[8], &ks[9], &ks[10], &ks[11], &ks[12], &ks[13], &ks[14], &ks[15], &ks[16], &ks[18]];
            for (i, a) in valid.iter().enumerate() {
                if set >> i & 1 == 1 {
                    v.push((*a).clone());
                }
            }
            if !thorough && set % 8 != (seed as u32) % 8 {
                continue;
            }
            if set % 3 == 0 {
                v.reverse();
            }
            out.program(&v);
        }
    }
    // sizes: long programs, long parameter lists, long guest code
    let mut sizes: BTreeSet<usize> = [33, 65, 129, 257, 700, 1025].into();
    for &n in dict().nums.iter().filter(|n| **n > 3 && **n < 2000).take(12) {
        sizes.extend([n - 1, n, n + 1]);
    }
    for n in sizes {
        let mut prog = vec![];
        for i in 0..n {
            let mut a = ks[i % (ks.len() - 4)].clone();
            if i % 7 == 3 { a = rand_spe(&mut rng, false, 4); }
            prog.push(a);
        }
        out.program(&prog);
        let same: Vec<Adv> = (0..n).map(|_| ks[7].clone()).collect();
        out.program(&same);
        let word = |i: usize| format!("p{}", i.to_string().bytes().map(|b| (b - b'0' + b'a') as char).collect::<String>());
        const TS: &[&str] = &["I32", "F32", "I64", "F64"];
        let list = |from: usize, k: usize| (from..from + k).map(|i| Par(word(i), TS[(i * 7 + i / 5) % 4].to_string())).collect::<Vec<_>>();
        for (a, r) in [(list(0, n), list(n, 3)), (list(0, 2), list(2, n)), (list(0, n), list(n, n)), (list(0, n), list(n - 1, 2)), (list(1, n), list(n - 1, n))] {
            out.program(&[Spe { mutable: n % 2 == 0, f: "f".into(), a, r, g: "g".into() }]);
        }
        let g: String = (0..n * 60).map(|i| ["x", " ", "\n", "<<<", "é", "(", ")", "#|", "|#", "\t", ">>>GUEST>>>"][(i * i + i / 3) % 11]).collect();
        if guest_ok(&g) {
            for a in all_kinds(&["f", "a", "r"], &g).into_iter().take(20) { out.program(&[a]); }
        }
    }
    // random programs
    for i in 0..if thorough { 40_000 } else { 3_000 } {
        let n = rng.below(if i % 50 == 0 { 40 } else { 8 });
        let bad = i % 3 == 0;
        let prog: Vec<Adv> = (0..n).map(|_| rand_adv(&mut rng, bad)).collect();
        let base = out.text(&prog, plain(&prog));
        if prop == "C08" || i % 20 == 0 {
            let seps = [" ", "\n", "\t", "\r\n", "  ", "#| c |#", " #| (advice) >>>GUEST>>> |# ", "#||#", "#| # | |#"];
            let mut r2 = Rng(rng.next() | 1);
            let text = render(&prog, &mut |needed| {
                if !needed && r2.below(2) == 0 {
                    String::new()
                } else {
                    let mut s = String::new();
                    if needed {
                        s.push_str(r2.pick(&seps[..5]));
                    }
                    for _ in 0..r2.below(3) {
                        s.push_str(r2.pick(&seps));
                    }
                    s
                }
            });
            let r = out.text(&prog, text.clone());
            if prop == "C08" && prog.iter().all(|a| adv_err(a).is_none()) {
                let (x, y) = (roots(&base), roots(&r));
                if x != y {
                    out.fail(text, format!("another layout of the same program compiles to {y}, expected {x}"));
                }
            }
        }
    }

    let mut known = String::new();
    if prop == "C06" {
        let s = &out.seen;
        if s[0][0].is_none() && s[1][1].is_none() && s[0][1].is_some() && s[1][0].is_some() {
            // exactly the inversion, everywhere
            let w = "every specialised apply has the inverse of its declared mutability";
            known = format!("{{\"key\":\"inverted-mutability\",\"what\":\"{w}\"}}");
            out.fails.clear();
        }
    }
    let esc = |s: &str| {
        let mut o = String::from("\"");
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
                c => o.push(c),
            }
        }
        o.push('"');
        o
    };
    let mut f = std::fs::File::create(&args[4]).unwrap();
    let fails: Vec<String> = out.fails.iter().map(|(i, w)| format!("{{\"input\":{},\"what\":{}}}", esc(i), esc(w))).collect();
    let samples: Vec<String> = out.samples.iter().map(|s| esc(s)).collect();
    writeln!(f, "{{\"evaluations\":{},\"distinct_nontrivial\":{},\"samples\":[{}],\"failures\":[{}],\"known\":[{known}]}}", out.cases, out.nontrivial.len(), samples.join(","), fails.join(",")).unwrap();
}
fn roots(r: &Res) -> String {
    match r {
        Ok(Ok(c)) => format!("{:?}", c.wasp_root),
        _ => show(r),
    }
}
