//! Runs the real code of the wastrumentation crate (this file is compiled inside a copy of it, with a stand-in for the
//! wasabi_wasm crate) against oracles written from the texts of the properties C20-C42.
#![allow(dead_code)]
use crate::analysis::{AnalysisInterface, WasmExport, WasmImport, WasmType};
use crate::compiler::*;
use crate::instrument::TransformationStrategy;
use crate::parse_nesting::*;
use crate::wasm_constructs as wc;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};
use wasabi_wasm::types::InferredInstructionType as Ty;
use wasabi_wasm::*;
type W = wasabi_wasm::Instr;
type H = HighLevelInstr;
include!("verif_tables.rs");

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() >> 11) as usize % n }
    pub fn one_in(&mut self, n: usize) -> bool { self.below(n) == 0 }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T { v[self.below(v.len())].clone() }
}
#[derive(Default)]
pub struct Out { pub cases: u64, pub seen: BTreeSet<u64>, pub samples: Vec<String>, pub fails: Vec<(String, String)> }
impl Out {
    pub fn note(&mut self, s: &str) {
        self.cases += 1;
        let h = s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
        if self.seen.insert(h) && self.samples.len() < 5 && self.cases % 17 == 3 { self.samples.push(s.chars().take(300).collect()); }
    }
    pub fn fail(&mut self, i: String, w: String) { if self.fails.len() < 8 { self.fails.push((i.chars().take(2000).collect(), w.chars().take(2000).collect())); } }
    pub fn check(&mut self, i: &str, r: Result<(), String>) { self.note(i); if let Err(w) = r { self.fail(i.into(), w) } }
}
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| format!("panic: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()))
}

// ---------------------------------------------------------------- nested bodies
/// a nested instruction: location, marked as injected, type, head (with empty bodies), bodies
#[derive(Clone, PartialEq)]
struct N { f: u32, i: usize, x: Option<bool>, ty: Ty, h: H, kids: Vec<Vec<N>> }
fn hollow(h: &H) -> (H, Vec<&BodyInner>) {
    match h {
        H::Block(t, b) => (H::Block(*t, vec![]), vec![b]),
        H::Loop(t, b) => (H::Loop(*t, vec![]), vec![b]),
        H::If(t, b, None) => (H::If(*t, vec![], None), vec![b]),
        H::If(t, b, Some(e)) => (H::If(*t, vec![], Some(vec![])), vec![b, e]),
        h => (h.clone(), vec![]),
    }
}
fn read(b: &BodyInner) -> Vec<N> {
    b.iter().map(|t| {
        let (h, k) = hollow(&t.instr);
        N { f: t.funct_index, i: t.instr_index, x: Some(!t.is_uninstrumented()), ty: t.type_, h, kids: k.into_iter().map(read).collect() }
    }).collect()
}
fn filled(n: &N) -> H {
    let k = |j: usize| write(&n.kids[j]);
    match &n.h {
        H::Block(t, _) => H::Block(*t, k(0)),
        H::Loop(t, _) => H::Loop(*t, k(0)),
        H::If(t, _, None) => H::If(*t, k(0), None),
        H::If(t, _, Some(_)) => H::If(*t, k(0), Some(k(1))),
        h => h.clone(),
    }
}
fn write(b: &[N]) -> BodyInner {
    b.iter().map(|n| {
        let t = TypedHighLevelInstr::new_uninstrumented(n.f, n.i, n.ty, filled(n));
        if n.x == Some(true) { t.instrument_with(filled(n)) } else { t }
    }).collect()
}
fn show(b: &[N]) -> String {
    b.iter().map(|n| {
        let m = match n.x { Some(true) => "+", Some(false) => "", None => "?" };
        let h = match &n.h { H::Block(t, _) => format!("block {t:?}"), H::Loop(t, _) => format!("loop {t:?}"), H::If(t, ..) => format!("if {t:?}"), h => format!("{h:?}") };
        format!("{m}{}:{} {h}{}", n.f, n.i, n.kids.iter().map(|k| format!("{{{}}}", show(k))).collect::<Vec<_>>().join(" else "))
    }).collect::<Vec<_>>().join("; ")
}
/// the first difference; the type is compared on original instructions only
fn differ(want: &[N], got: &[N], helper: &dyn Fn(u32) -> bool) -> Option<String> {
    for j in 0..want.len().max(got.len()) {
        let (Some(a), Some(b)) = (want.get(j), got.get(j)) else {
            return Some(format!("expected {}, got {}", want.get(j).map(|n| show(&[n.clone()])).unwrap_or("the end".into()), got.get(j).map(|n| show(&[n.clone()])).unwrap_or("the end".into())));
        };
        let same_head = a.h == b.h || matches!((&a.h, &b.h), (H::Call(p), H::Call(q)) if p.to_u32() == HELPER && helper(q.to_u32()));
        let ty = a.x == Some(true) || a.x.is_none() || a.ty == b.ty;
        if a.f != b.f || a.i != b.i || !same_head || !ty || (a.x.is_some() && a.x != b.x) || a.kids.len() != b.kids.len() {
            return Some(format!("expected {}, got {}{}", show(&[N { kids: vec![], ..a.clone() }]), show(&[N { kids: vec![], ..b.clone() }]), if ty { "" } else { " with another type" }));
        }
        for (p, q) in a.kids.iter().zip(&b.kids) { if let Some(d) = differ(p, q, helper) { return Some(d) } }
    }
    None
}
const HELPER: u32 = 4_000_000;
const HOOK: u32 = 9000;

/// numbers and words the current source mentions and the committed dictionary does not (check.py's dictionary)
pub struct Dict { pub nums: Vec<u64>, pub words: Vec<String> }
pub fn dict() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict { nums: vec![], words: vec![] };
        let t = std::fs::read_to_string(std::env::var("VERIF_DICT").unwrap_or_default()).unwrap_or_default();
        for l in t.lines().take_while(|l| *l != "old") {
            if let Some(n) = l.strip_prefix("i ").and_then(|n| n.parse::<u64>().ok()) { for n in [n, n.wrapping_sub(1), n.wrapping_add(1)] { if !d.nums.contains(&n) { d.nums.push(n) } } }
            let Some(h) = l.strip_prefix("s ") else { continue };
            let b: Vec<u8> = (0..h.len() / 2).filter_map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect();
            if let Ok(w) = String::from_utf8(b) { if w.len() < 80 { for w in [w.clone(), format!("{w}x"), format!("x{w}")] { d.words.push(w) } } }
        }
        d.nums.truncate(60);
        d.words.truncate(90);
        d
    })
}
/// a number of the dictionary up to `max`, one time in `k`
fn num(r: &mut Rng, k: usize, max: u64) -> Option<u64> {
    let d = &dict().nums;
    if d.is_empty() || !r.one_in(k) { return None }
    let n = r.pick(d);
    (n <= max).then_some(n)
}
fn word(r: &mut Rng, k: usize) -> Option<String> {
    let d = &dict().words;
    (!d.is_empty() && r.one_in(k)).then(|| r.pick(d))
}
const NUM: [ValType; 4] = [ValType::I32, ValType::I64, ValType::F32, ValType::F64];
fn ftype(r: &mut Rng) -> FunctionType {
    let l = |r: &mut Rng| { let n = num(r, 12, 40).map(|n| n as usize).unwrap_or_else(|| if r.one_in(80) { 5 + r.below(36) } else { r.below(4).saturating_sub(r.below(2)) }); (0..n).map(|_| r.pick(&NUM)).collect::<Vec<_>>() };
    FunctionType::new(&l(r), &l(r))
}
fn index<T>(r: &mut Rng, n: usize) -> Idx<T> { (r.below(n) as u32).into() }
fn label(r: &mut Rng) -> Label { Label::from(if let Some(n) = num(r, 6, i32::MAX as u64) { n as u32 } else if r.one_in(20) { i32::MAX as u32 } else { r.below(6) as u32 }) }
fn val(r: &mut Rng) -> Val {
    if let Some(n) = num(r, 4, u64::MAX) {
        let n = if r.one_in(3) { n.wrapping_neg() } else { n };
        return match r.below(4) { 0 => Val::I32(n as i32), 1 => Val::I64(n as i64), 2 => Val::F32(F32((n as f32).to_bits())), _ => Val::F64(F64((n as f64).to_bits())) };
    }
    let k = r.next();
    match r.below(4) {
        0 => Val::I32([0, 1, -1, i32::MIN, i32::MAX, k as i32][r.below(6)]),
        1 => Val::I64([0, 1, -1, i64::MIN, i64::MAX, k as i64][r.below(6)]),
        2 => Val::F32(F32(k as u32)),
        _ => Val::F64(F64(k)),
    }
}
/// what the leaves may refer to
struct Scope { locals: Vec<ValType>, globals: Vec<ValType>, funs: Vec<FunctionType>, wild: bool }
/// an index in scope; far outside where nothing looks it up
fn some<T>(r: &mut Rng, s: &Scope, n: usize) -> Idx<T> { if s.wild && r.one_in(4) { wide(r) } else { index(r, n) } }
fn leaf(r: &mut Rng, s: &Scope) -> W {
    let nonzero = |n: usize| n > 0;
    loop {
        return match r.below(48) {
            0 => W::Unreachable, 1 => W::Nop, 2 => W::Br(label(r)), 3 => W::BrIf(label(r)),
            4 => { let n = if let Some(n) = num(r, 8, 300) { n as usize } else { match r.below(6) { 0 => 0, 1 => 1, 2 => 2, _ if r.one_in(60) => 8 + r.below(300), _ => r.below(7) } }; W::BrTable { table: (0..n).map(|_| label(r)).collect(), default: label(r) } }
            5 => W::Return,
            6 | 7 if nonzero(s.funs.len()) => W::Call(some(r, s, s.funs.len())),
            8 | 9 => W::CallIndirect(ftype(r), some(r, s, 3)),
            10 => W::RefNull(r.pick(RefType::ALL)), 11 => W::RefIsNull, 12 if nonzero(s.funs.len()) => W::RefFunc(some(r, s, s.funs.len())),
            13 => W::Drop, 14 => W::Select, 15 => W::TypedSelect(r.pick(&NUM)),
            16..=19 if nonzero(s.locals.len()) => W::Local(r.pick(LocalOp::ALL), some(r, s, s.locals.len())),
            20..=23 if nonzero(s.globals.len()) => W::Global(r.pick(GlobalOp::ALL), some(r, s, s.globals.len())),
            24 => match r.below(8) { 0 => W::TableGet(index(r, 3)), 1 => W::TableSet(index(r, 3)), 2 => W::TableSize(index(r, 3)), 3 => W::TableGrow(index(r, 3)), 4 => W::TableFill(index(r, 3)), 5 => W::TableCopy(index(r, 3), index(r, 3)), 6 => W::TableInit(index(r, 3), index(r, 3)), _ => W::ElemDrop(index(r, 3)) },
            25..=28 => { let o = r.pick(LoadOp::ALL); W::Load(o, marg(r)) }
            29..=32 => { let o = r.pick(StoreOp::ALL); W::Store(o, marg(r)) }
            33 => W::MemorySize(some(r, s, 3)), 34 => W::MemoryGrow(some(r, s, 3)),
            35 => match r.below(4) { 0 => W::MemoryFill, 1 => W::MemoryCopy, 2 => W::MemoryInit(index(r, 3)), _ => W::DataDrop(index(r, 3)) },
            36..=39 => W::Const(val(r)),
            40..=43 => W::Unary(r.pick(UnaryOp::ALL)),
            44..=47 => W::Binary(r.pick(BinaryOp::ALL)),
            _ => continue,
        };
    }
}
fn marg(r: &mut Rng) -> Memarg { Memarg { alignment_exp_bytes: r.below(4) as u8, offset: if let Some(n) = num(r, 4, u32::MAX as u64) { n as u32 } else { match r.below(4) { 0 => 0, 1 => u32::MAX, 2 => r.next() as u32, _ => r.below(100) as u32 } } } }
/// a well-nested flat body without its final end
fn flat(r: &mut Rng, s: &Scope, depth: usize, budget: &mut usize) -> Vec<W> {
    let mut out = vec![];
    let n = if r.one_in(6) { 0 } else { 1 + r.below(5) };
    for _ in 0..n {
        if *budget == 0 { break }
        *budget -= 1;
        if depth > 0 && r.one_in(3) {
            let t = ftype(r);
            let at = out.len();
            match r.below(4) {
                0 => { out.push(W::Block(t)); out.extend(flat(r, s, depth - 1, budget)); }
                1 => { out.push(W::Loop(t)); out.extend(flat(r, s, depth - 1, budget)); }
                2 => { out.push(W::If(t)); out.extend(flat(r, s, depth - 1, budget)); }
                _ => {
                    let then = flat(r, s, depth - 1, budget);
                    let else_ = if r.one_in(5) { then.clone() } else { flat(r, s, depth - 1, budget) };
                    out.push(W::If(t)); out.extend(then); out.push(W::Else); out.extend(else_);
                }
            }
            out.push(W::End);
            // the same again, inside or after
            if r.one_in(8) { let o = out[at].clone(); let c: Vec<W> = out.drain(at..).collect(); out.push(o.clone()); out.extend(c.clone()); if r.one_in(3) && matches!(o, W::If(_)) { out.push(W::Else); out.extend(c) } out.push(W::End) }
            else if r.one_in(8) { let c: Vec<W> = out[at..].to_vec(); out.extend(c) }
        } else {
            let w = leaf(r, s);
            out.push(w.clone());
            if r.one_in(4) { phrase(r, s, w, &mut out) }
        }
    }
    out
}
/// instructions that have something to do with the one before
fn phrase(r: &mut Rng, s: &Scope, w: W, out: &mut Vec<W>) {
    for _ in 0..1 + r.below(2) {
        let next = match &w {
            W::Local(_, i) if r.one_in(2) => W::Local(r.pick(LocalOp::ALL), *i),
            W::Global(_, i) if r.one_in(2) => W::Global(r.pick(GlobalOp::ALL), *i),
            W::Load(_, m) | W::Store(_, m) if r.one_in(2) => if r.one_in(2) { W::Load(r.pick(LoadOp::ALL), *m) } else { W::Store(r.pick(StoreOp::ALL), *m) },
            W::MemorySize(i) | W::MemoryGrow(i) if r.one_in(2) => if r.one_in(2) { W::MemorySize(*i) } else { W::MemoryGrow(*i) },
            W::Call(f) if r.one_in(3) => W::RefFunc(*f),
            W::Br(l) | W::BrIf(l) if r.one_in(2) => if r.one_in(2) { W::Br(*l) } else { W::BrIf(*l) },
            W::Const(_) if r.one_in(2) => match r.below(7) { 0 => W::Drop, 1 => W::Return, 2 => W::BrIf(label(r)), 3 => W::Unary(r.pick(UnaryOp::ALL)), 4 => W::Select, 5 => W::MemoryGrow(some(r, s, 3)), _ => W::Binary(r.pick(BinaryOp::ALL)) },
            _ => w.clone(),
        };
        out.push(next);
    }
    if r.one_in(3) { let w = leaf(r, s); out.push(w) }
}
/// the nested form of a well-nested flat body, from the text of C20 and C21
fn nest(f: u32, body: &[W], types: &[Ty]) -> Vec<N> {
    fn go(f: u32, b: &[W], t: &[Ty], k: &mut usize) -> Vec<N> {
        let mut out = vec![];
        while *k < b.len() && !matches!(b[*k], W::End | W::Else) {
            let i = *k;
            *k += 1;
            let mk = |h, kids| N { f, i, x: Some(false), ty: t[i], h, kids };
            match &b[i] {
                W::Block(ty) => { let x = go(f, b, t, k); *k += 1; out.push(mk(H::Block(*ty, vec![]), vec![x])) }
                W::Loop(ty) => { let x = go(f, b, t, k); *k += 1; out.push(mk(H::Loop(*ty, vec![]), vec![x])) }
                W::If(ty) => {
                    let x = go(f, b, t, k);
                    if matches!(b[*k], W::Else) { *k += 1; let y = go(f, b, t, k); *k += 1; out.push(mk(H::If(*ty, vec![], Some(vec![])), vec![x, y])) }
                    else { *k += 1; out.push(mk(H::If(*ty, vec![], None), vec![x])) }
                }
                l => out.push(mk(leaf_nested(l).unwrap(), vec![])),
            }
        }
        out
    }
    go(f, body, types, &mut 0)
}
fn flatten(b: &[N]) -> Vec<W> {
    let mut out = vec![];
    for n in b {
        match &n.h {
            H::Block(t, _) => { out.push(W::Block(*t)); out.extend(flatten(&n.kids[0])); out.push(W::End) }
            H::Loop(t, _) => { out.push(W::Loop(*t)); out.extend(flatten(&n.kids[0])); out.push(W::End) }
            H::If(t, ..) => {
                out.push(W::If(*t));
                out.extend(flatten(&n.kids[0]));
                if n.kids.len() == 2 { out.push(W::Else); out.extend(flatten(&n.kids[1])) }
                out.push(W::End)
            }
            l => out.push(leaf_flat(l).unwrap()),
        }
    }
    out
}
fn natural(w: &W, s: &Scope) -> Ty {
    // the type of an instruction where operands are known (any type would do where hooks do not look)
    let t = |a: &[ValType], b: &[ValType]| Ty::Reachable(FunctionType::new(a, b));
    match w {
        W::Local(o, i) => { let v = s.locals[i.to_usize() % s.locals.len()]; match o { LocalOp::Get => t(&[], &[v]), LocalOp::Set => t(&[v], &[]), LocalOp::Tee => t(&[v], &[v]) } }
        W::Global(o, i) => { let v = s.globals[i.to_usize() % s.globals.len()]; match o { GlobalOp::Get => t(&[], &[v]), GlobalOp::Set => t(&[v], &[]) } }
        _ => t(&[], &[]),
    }
}
fn scope(r: &mut Rng) -> Scope {
    let l = |r: &mut Rng, n: usize| (0..n).map(|_| r.pick(&NUM)).collect::<Vec<_>>();
    let (a, b) = (1 + r.below(5), 1 + r.below(5));
    Scope { locals: l(r, a), globals: l(r, b), funs: (0..1 + r.below(4)).map(|_| ftype(r)).collect(), wild: false }
}
/// an index anywhere among those an i32 can carry
fn wide<T>(r: &mut Rng) -> Idx<T> { if let Some(n) = num(r, 3, i32::MAX as u64) { return (n as u32).into() } (match r.below(4) { 0 => 255 + r.below(3) as u32, 1 => 65_534 + r.below(4) as u32, 2 => i32::MAX as u32, _ => r.next() as u32 >> 1 }).into() }
fn shift(b: &mut [N], f: u32, by: usize) { for n in b { n.f = f; n.i += by; for k in &mut n.kids { shift(k, f, by) } } }
/// now and then as long, or as deep, as the source says
fn stretch(r: &mut Rng, b: &mut Vec<W>) {
    if let Some(n) = num(r, 60, 400) { let at = if r.one_in(2) { 0 } else { b.len() }; let w = if r.one_in(2) { W::Nop } else { W::Drop }; b.splice(at..at, (0..n).map(|_| w.clone())); }
    if let Some(n) = num(r, 80, 40) {
        let t = FunctionType::empty();
        let mut c: Vec<W> = (0..n).map(|_| match r.below(3) { 0 => W::Block(t), 1 => W::Loop(t), _ => W::If(t) }).collect();
        c.append(b);
        c.extend((0..n).map(|_| W::End));
        *b = c;
    }
}
fn original(r: &mut Rng) -> Vec<N> {
    let mut s = scope(r);
    s.wild = true;
    let mut budget = 3 + r.below(40);
    let d = r.below(5);
    let mut b = flat(r, &s, d, &mut budget);
    stretch(r, &mut b);
    let types: Vec<Ty> = b.iter().map(|w| natural(w, &s)).collect();
    let mut b = nest(r.below(5) as u32, &b, &types);
    // far into a long function, or in one of many functions
    if let Some(n) = num(r, 3, i64::MAX as u64 - 5000) { let f = wide::<u8>(r).to_u32(); shift(&mut b, f, n as usize) }
    else if r.one_in(4) { let by = [0, 250, 65_530, u32::MAX as usize - 8, i64::MAX as usize - 1000][r.below(5)]; let f = wide::<u8>(r).to_u32(); shift(&mut b, f, by) }
    b
}

// ---------------------------------------------------------------- what each hook is to do (texts of C25-C29)
enum Act { Keep, Before(Vec<H>), After(Vec<H>), Replace(Vec<H>), First(Vec<H>), Last, Arms }
#[derive(Default)]
pub struct Codes(BTreeMap<String, i32>);
impl Codes {
    /// the code of an operation is the one the real hook passes for it (which one that is, is the subject of C30)
    fn of(&mut self, fam: &str, op: String, h: &'static Hook, i: H) -> i32 {
        if let Some(c) = self.0.get(&format!("{fam} {op}")) { return *c }
        let out = read(&run_hook(h, 1, &[N { f: 0, i: 0, x: Some(false), ty: Ty::Unreachable, h: i, kids: vec![] }], &mut Module::new()).unwrap_or_default());
        let c = out.iter().rev().find_map(|n| if let H::Const(Val::I32(c)) = n.h { Some(c) } else { None }).unwrap_or(0);
        self.0.insert(format!("{fam} {op}"), c);
        c
    }
}
fn i32c(n: u32) -> H { H::Const(Val::I32(n as i32)) }
fn i64c(n: u32) -> H { H::Const(Val::I64(n as i64)) }
fn vt(s: &str) -> ValType { match s { "I32" => ValType::I32, "I64" => ValType::I64, "F32" => ValType::F32, _ => ValType::F64 } }
fn val_ty(v: &Val) -> ValType { match v { Val::I32(_) => ValType::I32, Val::I64(_) => ValType::I64, Val::F32(_) => ValType::F32, Val::F64(_) => ValType::F64 } }
fn act(hk: &'static Hook, n: &N, codes: &mut Codes) -> Act {
    let counts = |t: &FunctionType| vec![i32c(t.inputs().len() as u32), i32c(t.results().len() as u32)];
    let name = hk.name;
    match (name, &n.h) {
        ("BlockPre", H::Block(t, _)) | ("LoopPre", H::Loop(t, _)) => Act::First(counts(t)),
        ("BlockPost", H::Block(..)) | ("LoopPost", H::Loop(..)) => Act::Last,
        ("Select", H::Select | H::TypedSelect(_)) => Act::Before(vec![]),
        ("IfThen", H::If(t, _, None)) | ("IfThenElse", H::If(t, _, Some(_))) => Act::Before(counts(t)),
        ("IfThenPost", H::If(_, _, None)) | ("IfThenElsePost", H::If(_, _, Some(_))) => Act::Arms,
        ("Br", H::Br(l)) => Act::Before(vec![i64c(l.to_u32())]),
        ("BrIf", H::BrIf(l)) => Act::Before(vec![i32c(l.to_u32())]),
        ("BrTable", H::BrTable { default, .. }) => Act::Before(vec![H::Call(HELPER.into()), i32c(default.to_u32())]),
        ("Pre", H::Call(f)) => Act::Before(vec![i32c(f.to_u32())]),
        ("Post", H::Call(f)) => Act::After(vec![i32c(f.to_u32())]),
        ("IndirectPre", H::CallIndirect(_, t)) => Act::Before(vec![i32c(t.to_u32())]),
        ("IndirectPost", H::CallIndirect(_, t)) => Act::After(vec![i32c(t.to_u32())]),
        ("Drop", H::Drop) | ("Return", H::Return) => Act::Before(vec![]),
        (_, H::Const(v)) if name.strip_prefix("Const").map(vt) == Some(val_ty(v)) => Act::After(vec![]),
        (_, H::Unary(o)) if name.starts_with("Unary") => {
            if vt(&name[5..8]) == un_in(*o) && vt(&name[10..13]) == un_out(*o) { Act::Replace(vec![i32c(codes.of("unary", format!("{o:?}"), hk, n.h.clone()) as u32)]) } else { Act::Keep }
        }
        (_, H::Binary(o)) if name.starts_with("Binary") => {
            if vt(&name[6..9]) == bin_in(*o) && vt(&name[14..17]) == bin_out(*o) { Act::Replace(vec![i32c(codes.of("binary", format!("{o:?}"), hk, n.h.clone()) as u32)]) } else { Act::Keep }
        }
        ("MemorySize", H::MemorySize(m)) => Act::After(vec![i64c(m.to_u32())]),
        ("MemoryGrow", H::MemoryGrow(m)) => Act::Replace(vec![i64c(m.to_u32())]),
        (_, H::Load(o, a)) if name.len() == 7 && name.ends_with("Load") && vt(&name[..3]) == ld_ty(*o) => Act::Replace(vec![i64c(a.offset), i32c(codes.of("load", format!("{o:?}"), hk, n.h.clone()) as u32)]),
        (_, H::Store(o, a)) if name.len() == 8 && name.ends_with("Store") && vt(&name[..3]) == st_ty(*o) => Act::Replace(vec![i64c(a.offset), i32c(codes.of("store", format!("{o:?}"), hk, n.h.clone()) as u32)]),
        (_, H::Local(o, l)) if name.starts_with("Local") => variable(name, "Local", format!("{o:?}"), l.to_u32(), n),
        (_, H::Global(o, l)) if name.starts_with("Global") => variable(name, "Global", format!("{o:?}"), l.to_u32(), n),
        _ => Act::Keep,
    }
}
fn variable(name: &str, kind: &str, op: String, i: u32, n: &N) -> Act {
    let Ty::Reachable(t) = n.ty else { return Act::Keep };
    let v = if op == "Get" { t.results()[0] } else { t.inputs()[0] };
    let rest = &name[kind.len()..];
    if rest[..3] != op || vt(&rest[3..]) != v { return Act::Keep }
    if op == "Get" { Act::After(vec![i64c(i)]) } else { Act::Before(vec![i64c(i)]) }
}
/// what one hook makes of a body (x: None where the text leaves the marking open)
fn expect(hk: &'static Hook, call: u32, body: &[N], codes: &mut Codes) -> Vec<N> {
    let mut out = vec![];
    for n in body {
        let mut kids: Vec<Vec<N>> = n.kids.iter().map(|k| expect(hk, call, k, codes)).collect();
        let inj = |h: H| N { f: n.f, i: n.i, x: Some(true), ty: Ty::Unreachable, h, kids: vec![] };
        let trap = |pre: Vec<H>| -> Vec<N> { pre.into_iter().chain([H::Const(Val::I64(n.f as i64)), H::Const(Val::I64(n.i as i64)), H::Call(call.into())]).map(inj).collect() };
        let a = if n.x == Some(false) { act(hk, n, codes) } else { Act::Keep };
        let me = |kids: Vec<Vec<N>>| N { kids, ..n.clone() };
        match a {
            Act::Keep => out.push(me(kids)),
            Act::Before(p) => { out.extend(trap(p)); out.push(me(kids)) }
            Act::After(p) => { out.push(me(kids)); out.extend(trap(p)) }
            Act::Replace(p) => out.extend(trap(p)),
            Act::First(p) => { kids[0] = trap(p).into_iter().chain(std::mem::take(&mut kids[0])).collect(); out.push(me(kids)) }
            Act::Last => { kids[0].extend(trap(vec![])); out.push(me(kids)) }
            Act::Arms => {
                if kids.len() == 1 { kids.push(vec![]) }
                for k in &mut kids { k.extend(trap(vec![])) }
                let mut m = me(kids);
                if let H::If(t, _, None) = m.h { m.h = H::If(t, vec![], Some(vec![])); m.x = None; m.ty = Ty::Unreachable }
                out.push(m)
            }
        }
    }
    out
}
fn run_hook(hk: &Hook, call: u32, body: &[N], m: &mut Module) -> Result<BodyInner, String> {
    guard(|| { let HighLevelBody(b) = (hk.make)(call.into()).transform(&HighLevelBody(write(body)), m); b })
}
/// a body as earlier hooks left it
fn instrumented(r: &mut Rng, m: &mut Module) -> Result<Vec<N>, String> {
    let mut b = original(r);
    if r.one_in(3) { sprinkle(r, &mut b) }
    for j in 0..r.below(4) {
        let hk = &HOOKS[r.below(HOOKS.len())];
        b = read(&run_hook(hk, 7000 + j as u32, &b, m).map_err(|e| format!("earlier hook {}: {e}", hk.name))?);
    }
    Ok(b)
}
/// injected instructions of every kind, among the others
fn sprinkle(r: &mut Rng, b: &mut Vec<N>) {
    for n in b.iter_mut() { for k in &mut n.kids { sprinkle(r, k) } }
    let extra = original(r);
    for mut e in extra.into_iter().take(3) {
        e.x = Some(true);
        e.ty = Ty::Unreachable;
        let at = r.below(b.len() + 1);
        b.insert(at, e)
    }
}
/// one original instruction of each kind the hook could mean, so that every kind is seen
fn kinds(r: &mut Rng, k: usize) -> Option<W> {
    let mut v: Vec<W> = vec![];
    let t = ftype(r);
    v.extend(UnaryOp::ALL.iter().map(|o| W::Unary(*o)));
    v.extend(BinaryOp::ALL.iter().map(|o| W::Binary(*o)));
    v.extend(LoadOp::ALL.iter().map(|o| W::Load(*o, marg(r))));
    v.extend(StoreOp::ALL.iter().map(|o| W::Store(*o, marg(r))));
    v.extend([W::Block(t), W::Loop(t), W::If(t), W::Br(label(r)), W::BrIf(label(r)), W::Call(5_u32.into()), W::CallIndirect(t, 7_u32.into()), W::Return, W::Drop, W::Select, W::MemorySize(3_u32.into()), W::MemoryGrow(4_u32.into())]);
    v.extend(NUM.iter().map(|t| W::TypedSelect(*t)));
    v.extend([Val::I32(7), Val::I64(8), Val::F32(F32(9)), Val::F64(F64(10))].map(W::Const));
    for o in LocalOp::ALL { v.extend((0..4u32).map(|i| W::Local(*o, i.into()))) }
    for o in GlobalOp::ALL { v.extend((0..4u32).map(|i| W::Global(*o, i.into()))) }
    v.get(k).cloned()
}
fn is_helper(m: &Module, i: u32) -> bool {
    m.functions.get(i as usize).is_some_and(|f| f.type_ == FunctionType::new(&[ValType::I32], &[ValType::I32, ValType::I32]) && f.code().is_some())
}
fn hook_cases(prop: &str, thorough: bool, r: &mut Rng, out: &mut Out) {
    let mut codes = Codes::default();
    let mine: Vec<&'static Hook> = HOOKS.iter().filter(|h| h.prop == prop || matches!(prop, "C22" | "C23")).collect();
    let mut bodies: Vec<(Vec<N>, Option<&'static Hook>)> = vec![];
    let s = Scope { locals: NUM.to_vec(), globals: NUM.to_vec(), funs: vec![], wild: true };
    let mut k = 0;
    while let Some(w) = kinds(r, k) {
        k += 1;
        let flat = match &w { W::Block(t) | W::Loop(t) => vec![w.clone(), W::Nop, W::Block(*t), W::End, W::End], W::If(t) => vec![w.clone(), W::Nop, W::End, W::If(*t), W::Drop, W::Else, W::If(*t), W::End, W::End], _ => vec![w.clone()] };
        let types: Vec<Ty> = flat.iter().map(|w| natural(w, &s)).collect();
        let b = nest(3, &flat, &types);
        for h in &mine { bodies.push((b.clone(), Some(h))) }
    }
    let n = if thorough { 60_000 } else { 6_000 };
    for c in 0..bodies.len() + n {
        let mut m = Module::new();
        let (body, hk) = if c < bodies.len() { (bodies[c].0.clone(), bodies[c].1.unwrap()) } else {
            match instrumented(r, &mut m) {
                Ok(b) => (b, r.pick(&mine)),
                Err(e) => { out.fail("instrumenting twice".into(), e); continue }
            }
        };
        let d = format!("hook {} on [{}]", hk.name, show(&body));
        let res = run_hook(hk, HOOK, &body, &mut m).and_then(|got| {
            let got = read(&got);
            match prop {
                "C22" => conventions(hk, &body, &got, &mut codes),
                "C23" => originals_only(hk, &body, &got, &mut codes),
                _ => match differ(&expect(hk, HOOK, &body, &mut codes), &got, &|i| is_helper(&m, i)) { None => Ok(()), Some(e) => Err(format!("{e} in [{}]", show(&got))) },
            }
        });
        out.check(&d, res);
    }
}
fn walk<'a>(b: &'a [N], f: &mut dyn FnMut(&'a [N], usize)) {
    for j in 0..b.len() { f(b, j); for k in &b[j].kids { walk(k, f) } }
}
fn originals(b: &[N]) -> Vec<&N> { let mut v = vec![]; walk(b, &mut |l, j| if l[j].x == Some(false) { v.push(&l[j]) }); v }
fn conventions(hk: &'static Hook, body: &[N], got: &[N], codes: &mut Codes) -> Result<(), String> {
    let mut err = None;
    walk(got, &mut |l, j| {
        if !matches!(l[j].h, H::Call(f) if f.to_u32() == HOOK) { return }
        let n = &l[j];
        let lead = |d: usize, v: i64| j >= d && l[j - d].h == H::Const(Val::I64(v)) && l[j - d].x == Some(true) && (l[j - d].f, l[j - d].i) == (n.f, n.i);
        if n.x != Some(true) { err = Some(format!("the call at {}:{} is not marked as injected", n.f, n.i)) }
        else if !lead(2, n.f as i64) || !lead(1, n.i as i64) { err = Some(format!("the call at {}:{} is not preceded by that location: [{}]", n.f, n.i, show(l))) }
    });
    if let Some(e) = err { return Err(e) }
    // the calls carry the locations of the instructions observed; originals stay as they were
    let (mut want, mut have) = (vec![], vec![]);
    let mut stay = vec![];
    for n in originals(body) {
        match act(hk, n, codes) {
            Act::Keep => stay.push(n),
            Act::Arms => { want.push((n.f, n.i)); want.push((n.f, n.i)); if n.kids.len() == 2 { stay.push(n) } }
            Act::Replace(_) => want.push((n.f, n.i)),
            _ => { want.push((n.f, n.i)); stay.push(n) }
        }
    }
    walk(got, &mut |l, j| if matches!(l[j].h, H::Call(f) if f.to_u32() == HOOK) { have.push((l[j].f, l[j].i)) });
    want.sort();
    have.sort();
    if want != have { return Err(format!("hook calls at {have:?}, instructions to observe at {want:?}")) }
    let key = |n: &N| format!("{}:{} {:?} {:?}", n.f, n.i, n.h, n.ty);
    let (mut a, mut b): (Vec<String>, Vec<String>) = (stay.iter().map(|n| key(n)).collect(), originals(got).into_iter().filter(|n| !(hk.name == "IfThenPost" && matches!(n.h, H::If(_, _, Some(_))))).map(key).collect());
    if hk.name == "IfThenPost" { a.retain(|s| !s.contains("If(")); b.retain(|s| !s.contains("If(")) }
    a.sort();
    b.sort();
    if a != b { return Err(format!("unmarked instructions afterwards: {b:?}, expected {a:?}")) }
    // whatever is new is marked and carries the location of an observed instruction
    let mut err = None;
    let known: BTreeSet<(u32, usize)> = want.iter().cloned().collect();
    let mut before: BTreeMap<String, i32> = BTreeMap::new();
    walk(body, &mut |l, j| if l[j].x == Some(true) { *before.entry(key(&l[j])).or_default() += 1 });
    walk(got, &mut |l, j| if l[j].x == Some(true) {
        let c = before.entry(key(&l[j])).or_default();
        *c -= 1;
        if *c < 0 && !known.contains(&(l[j].f, l[j].i)) { err = Some(format!("{} was injected for no observed instruction", key(&l[j]))) }
    });
    err.map_or(Ok(()), Err)
}
fn strip(b: &[N], drop: &mut dyn FnMut(&N) -> bool) -> Vec<N> {
    let mut out = vec![];
    for n in b {
        if n.x == Some(true) || drop(n) { continue }
        let kids = n.kids.iter().map(|k| strip(k, drop)).collect();
        out.push(N { kids, ..n.clone() })
    }
    out
}
fn originals_only(hk: &'static Hook, body: &[N], got: &[N], codes: &mut Codes) -> Result<(), String> {
    let mut count: BTreeMap<(u32, usize), usize> = BTreeMap::new();
    walk(got, &mut |l, j| if matches!(l[j].h, H::Call(f) if f.to_u32() == HOOK) { *count.entry((l[j].f, l[j].i)).or_default() += 1 });
    let mut have: BTreeMap<(u32, usize), usize> = BTreeMap::new();
    for n in originals(body) { if !matches!(act(hk, n, codes), Act::Keep) { *have.entry((n.f, n.i)).or_default() += if hk.name.ends_with("Post") && hk.name.starts_with("If") { 2 } else { 1 } } }
    for (k, c) in &count { if *c > have.get(k).copied().unwrap_or(0) { return Err(format!("the instructions at {k:?} are observed {c} times")) } }
    let inj = |b: &[N]| { let mut v: Vec<String> = vec![]; walk(b, &mut |l, j| if l[j].x == Some(true) { v.push(format!("{}:{} {:?}", l[j].f, l[j].i, l[j].h)) }); v };
    let (before, after) = (inj(body), inj(got));
    let mut it = after.iter();
    for b in &before { if !it.any(|a| a == b) { return Err(format!("the injected instruction {b} is gone or changed")) } }
    if hk.name != "IfThenPost" {
        let mut gone = |n: &N| matches!(act(hk, n, codes), Act::Replace(_));
        let want = strip(body, &mut gone);
        let now = strip(got, &mut |_| false);
        if let Some(d) = differ(&want, &now, &|_| false) { return Err(format!("without the injected instructions: {d}")) }
    } else {
        let key = |b: &[N]| originals(b).into_iter().filter(|n| !matches!(n.h, H::If(..))).map(|n| format!("{}:{} {:?} {:?}", n.f, n.i, n.h, n.ty)).collect::<Vec<_>>();
        if key(body) != key(got) { return Err("the other instructions changed".into()) }
    }
    Ok(())
}

// ---------------------------------------------------------------- modules, and running a few of their functions
/// a name that a hook or a support function also has
fn hookish(r: &mut Rng, export: bool) -> String {
    match r.below(5) {
        0 if export => "memory".into(), // (an export called like one that instrumentation adds would be a clash)
        0 => ["generic_apply", "call_base", "call_0", "instrumented_memory_grow", "instrumented_base_load_i32", "memory"][r.below(6)].into(),
        _ => (HOOKS[r.below(HOOKS.len())].interface)().name.to_string(),
    }
}
fn random_module(r: &mut Rng, refs: bool) -> Module {
    let mut m = Module::new();
    let mut fts: Vec<FunctionType> = (0..1 + r.below(3)).map(|_| ftype(r)).collect();
    fts.push(FunctionType::new(&[], &[]));
    let ty = |r: &mut Rng, fts: &[FunctionType]| {
        if refs && r.one_in(6) {
            let x = ValType::Ref(r.pick(RefType::ALL));
            if r.one_in(8) {
                let mut l: Vec<ValType> = (0..1 + r.below(24)).map(|_| r.pick(&NUM)).collect();
                let at = r.below(l.len() + 1);
                l.insert(at, x);
                return if r.one_in(2) { FunctionType::new(&l, &[]) } else { FunctionType::new(&[], &l) };
            }
            return match r.below(3) { 0 => FunctionType::new(&[x], &[]), 1 => FunctionType::new(&[ValType::I32, x], &[ValType::F64]), _ => FunctionType::new(&[ValType::I64], &[ValType::I32, x]) };
        }
        if r.one_in(3) { ftype(r) } else { r.pick(fts) }
    };
    for i in 0..r.below(3) { let t = ty(r, &fts); m.add_function_import(t, word(r, 3).unwrap_or_else(|| ["env", "wasi_unstable"][r.below(2)].into()), word(r, 3).unwrap_or_else(|| if r.one_in(3) { hookish(r, false) } else { format!("f{i}") })); }
    let n = num(r, 20, 300).map(|n| n.max(1) as usize).unwrap_or_else(|| if r.one_in(250) { 250 + r.below(30) } else if r.one_in(60) { 5 + r.below(40) } else { 1 + r.below(4) });
    let types: Vec<FunctionType> = m.functions.iter().map(|f| f.type_).chain((0..n).map(|_| ty(r, &fts))).collect();
    m.globals = (0..1 + r.below(4)).map(|_| Global { type_: GlobalType(r.pick(&NUM), true) }).collect();
    for _ in 0..r.below(3) { m.tables.push(Table { limits: Limits { initial_size: 4, max_size: None }, import: None, ref_type: RefType::FuncRef, export: vec![] }); }
    if r.one_in(2) { m.memories.push(Memory { limits: Limits { initial_size: 1, max_size: None }, import: None, export: vec![] }) }
    for t in types.iter().skip(m.functions.len()).cloned().collect::<Vec<_>>() {
        let locals: Vec<ValType> = (0..num(r, 10, 300).map(|n| n as usize).unwrap_or_else(|| r.below(3))).map(|_| if refs && r.one_in(8) { ValType::Ref(RefType::ExternRef) } else { r.pick(&NUM) }).collect();
        let all: Vec<ValType> = t.inputs().iter().chain(&locals).cloned().collect();
        let s = Scope { locals: all, globals: m.globals.iter().map(|g| g.type_.0).collect(), funs: types.clone(), wild: false };
        let mut budget = 2 + r.below(25);
        let d = r.below(4);
        let mut b = flat(r, &s, d, &mut budget);
        if n < 9 { stretch(r, &mut b); }
        b.push(W::End);
        let i = m.add_function(t, locals, b);
        if r.one_in(3) { for k in 0..1 + r.below(3) { let e = word(r, 3).unwrap_or_else(|| if r.one_in(3) { hookish(r, true) } else { format!("e{}_{k}", i.to_u32()) }); m.functions[i.to_usize()].export.push(e) } }
        if r.one_in(3) { m.functions[i.to_usize()].name = Some(word(r, 3).unwrap_or_else(|| format!("n{}", i.to_u32()))) }
    }
    m
}
fn show_module(m: &Module) -> String {
    m.functions.iter().enumerate().map(|(i, f)| match &f.code {
        ImportOrPresent::Import(a, b) => format!("#{i} {:?} from {a}.{b}", f.type_),
        ImportOrPresent::Present(c) => format!("#{i} {:?} locals {:?} {:?}", f.type_, c.locals.iter().map(|l| l.type_).collect::<Vec<_>>(), c.body),
    }).collect::<Vec<_>>().join("; ")
}
enum Stop { Trap(String), Unknown(String) }
trait Host { fn call(&mut self, m: &Module, f: u32, args: Vec<Val>) -> Result<Option<Vec<Val>>, Stop>; }
struct NoHost;
impl Host for NoHost { fn call(&mut self, _: &Module, _: u32, _: Vec<Val>) -> Result<Option<Vec<Val>>, Stop> { Ok(None) } }
struct Machine<'a> { m: &'a Module, mem: Vec<u8>, max_pages: usize, fuel: u64, reached: Vec<u32> }
enum Flow { Next, Jump(usize), Ret }
impl Machine<'_> {
    fn invoke(&mut self, h: &mut dyn Host, f: u32, args: Vec<Val>) -> Result<Vec<Val>, Stop> {
        let m = self.m;
        let Some(fun) = m.functions.get(f as usize) else { return Err(Stop::Trap(format!("no function {f}"))) };
        let Some(code) = fun.code() else { return Err(Stop::Unknown(format!("imported function {f}"))) };
        if args.iter().map(val_ty).ne(fun.type_.inputs().iter().cloned()) { return Err(Stop::Trap(format!("function {f} of type {:?} called with {args:?}", fun.type_))) }
        let mut locals = args;
        for l in &code.locals { locals.push(match l.type_ { ValType::Ref(_) => return Err(Stop::Unknown("reference local".into())), t => t.zero() }) }
        let Some(b) = nested_of(&code.body) else { return Err(Stop::Trap(format!("the body of function {f} is not well nested: {:?}", code.body))) };
        let mut st = vec![];
        match self.seq(h, &b, &mut locals, &mut st)? { Flow::Next | Flow::Ret => {} Flow::Jump(0) => {} Flow::Jump(_) => return Err(Stop::Trap("jump out of the function".into())) }
        let n = fun.type_.results().len();
        if st.len() < n { return Err(Stop::Trap(format!("function {f} leaves {st:?}, its results are {:?}", fun.type_.results()))) }
        let res = st.split_off(st.len() - n);
        if res.iter().map(val_ty).ne(fun.type_.results().iter().cloned()) { return Err(Stop::Trap(format!("function {f} leaves {res:?}, its results are {:?}", fun.type_.results()))) }
        Ok(res)
    }
    fn call(&mut self, h: &mut dyn Host, f: u32, st: &mut Vec<Val>) -> Result<(), Stop> {
        let Some(fun) = self.m.functions.get(f as usize) else { return Err(Stop::Trap(format!("no function {f}"))) };
        let n = fun.type_.inputs().len();
        if st.len() < n { return Err(Stop::Trap(format!("function {f} of type {:?} called with {st:?}", fun.type_))) }
        let args = st.split_off(st.len() - n);
        if args.iter().map(val_ty).ne(fun.type_.inputs().iter().cloned()) { return Err(Stop::Trap(format!("function {f} of type {:?} called with {args:?}", fun.type_))) }
        let res = match h.call(self.m, f, args.clone())? { Some(v) => v, None => self.invoke(h, f, args)? };
        st.extend(res);
        Ok(())
    }
    fn seq(&mut self, h: &mut dyn Host, b: &[Node], l: &mut Vec<Val>, st: &mut Vec<Val>) -> Result<Flow, Stop> {
        let trap = |s: &str| Stop::Trap(s.to_string());
        for n in b {
            if self.fuel == 0 { return Err(Stop::Unknown("too many steps".into())) }
            self.fuel -= 1;
            macro_rules! pop { () => { st.pop().ok_or_else(|| trap("empty stack"))? } }
            macro_rules! pop32 { () => { match pop!() { Val::I32(v) => v, v => return Err(Stop::Trap(format!("{v:?} where an i32 is wanted by {:?}", n.0))) } } }
            match &n.0 {
                W::Block(t) | W::Loop(t) | W::If(t) => {
                    let looping = matches!(n.0, W::Loop(_));
                    let arm = if matches!(n.0, W::If(_)) { if pop32!() != 0 { Some(&n.1) } else { n.2.as_ref() } } else { Some(&n.1) };
                    let Some(arm) = arm else { continue };
                    if st.len() < t.inputs().len() { return Err(trap("too few block inputs")) }
                    let mut inner = st.split_off(st.len() - t.inputs().len());
                    loop {
                        match self.seq(h, arm, l, &mut inner)? {
                            Flow::Ret => { *st = inner; return Ok(Flow::Ret) }
                            Flow::Jump(0) if looping => { let k = t.inputs().len(); if inner.len() < k { return Err(trap("too few loop inputs")) } inner = inner.split_off(inner.len() - k); continue }
                            Flow::Jump(0) | Flow::Next => { let k = t.results().len(); if inner.len() < k { return Err(trap("too few block results")) } st.extend(inner.split_off(inner.len() - k)); break }
                            Flow::Jump(k) => { st.extend(inner); return Ok(Flow::Jump(k - 1)) }
                        }
                    }
                }
                W::Unreachable => return Err(trap("unreachable")),
                W::Nop => {}
                W::Br(t) => return Ok(Flow::Jump(t.to_usize())),
                W::BrIf(t) => if pop32!() != 0 { return Ok(Flow::Jump(t.to_usize())) },
                W::BrTable { table, default } => { let i = pop32!() as u32 as usize; return Ok(Flow::Jump(table.get(i).unwrap_or(default).to_usize())) }
                W::Return => return Ok(Flow::Ret),
                W::Drop => { pop!(); }
                W::Select | W::TypedSelect(_) => { let c = pop32!(); let y = pop!(); let x = pop!(); st.push(if c != 0 { x } else { y }) }
                W::Const(v) => st.push(*v),
                W::Local(o, i) => {
                    let i = i.to_usize();
                    if i >= l.len() { return Err(Stop::Trap(format!("no local {i}"))) }
                    match o {
                        LocalOp::Get => st.push(l[i]),
                        LocalOp::Set | LocalOp::Tee => { let v = pop!(); if val_ty(&v) != val_ty(&l[i]) { return Err(Stop::Trap(format!("{v:?} put into a local holding {:?}", l[i]))) } l[i] = v; if *o == LocalOp::Tee { st.push(v) } }
                    }
                }
                W::Call(f) => self.call(h, f.to_u32(), st)?,
                W::CallIndirect(t, tab) => {
                    let i = pop32!() as u32;
                    let f = self.slot(tab.to_usize(), i)?;
                    let Some(fun) = self.m.functions.get(f as usize) else { return Err(Stop::Trap(format!("no function {f}"))) };
                    if fun.type_ != *t { return Err(trap("indirect call to a function of another type")) }
                    self.reached.push(f);
                    self.call(h, f, st)?
                }
                W::Load(o, a) => {
                    let p = pop32!() as u32 as usize + a.offset as usize;
                    let w = o.width() as usize;
                    if p + w > self.mem.len() { return Err(trap("load out of bounds")) }
                    let mut b = [0u8; 8];
                    b[..w].copy_from_slice(&self.mem[p..p + w]);
                    st.push(loaded(*o, u64::from_le_bytes(b)))
                }
                W::Store(o, a) => {
                    let v = pop!();
                    if val_ty(&v) != st_ty(*o) { return Err(Stop::Trap(format!("{v:?} stored by {o:?}"))) }
                    let p = pop32!() as u32 as usize + a.offset as usize;
                    let w = o.width() as usize;
                    if p + w > self.mem.len() { return Err(trap("store out of bounds")) }
                    self.mem[p..p + w].copy_from_slice(&bits(&v).to_le_bytes()[..w]);
                }
                W::MemorySize(_) => st.push(Val::I32((self.mem.len() / 65536) as i32)),
                W::MemoryGrow(_) => {
                    let n = pop32!() as u32 as usize;
                    let old = self.mem.len() / 65536;
                    if old + n > self.max_pages { st.push(Val::I32(-1)) } else { self.mem.resize((old + n) * 65536, 0); st.push(Val::I32(old as i32)) }
                }
                W::Unary(UnaryOp::I32Eqz) => { let v = pop32!(); st.push(Val::I32((v == 0) as i32)) }
                W::Binary(o) => {
                    use BinaryOp::*;
                    if bin_in(*o) != ValType::I32 { return Err(Stop::Unknown(format!("{o:?}"))) }
                    let y = pop32!();
                    let x = pop32!();
                    st.push(Val::I32(match o {
                        I32Add => x.wrapping_add(y), I32Sub => x.wrapping_sub(y), I32Mul => x.wrapping_mul(y), I32And => x & y, I32Or => x | y, I32Xor => x ^ y,
                        I32Shl => x.wrapping_shl(y as u32), I32ShrU => (x as u32).wrapping_shr(y as u32) as i32, I32ShrS => x.wrapping_shr(y as u32),
                        I32Eq => (x == y) as i32, I32Ne => (x != y) as i32, I32LtS => (x < y) as i32, I32LtU => ((x as u32) < y as u32) as i32, I32GtS => (x > y) as i32, I32GtU => (x as u32 > y as u32) as i32,
                        I32LeS => (x <= y) as i32, I32LeU => (x as u32 <= y as u32) as i32, I32GeS => (x >= y) as i32, I32GeU => (x as u32 >= y as u32) as i32,
                        o => return Err(Stop::Unknown(format!("{o:?}"))),
                    }))
                }
                x => return Err(Stop::Unknown(format!("{x:?}"))),
            }
        }
        Ok(Flow::Next)
    }
    fn slot(&self, table: usize, i: u32) -> Result<u32, Stop> {
        let Some(t) = self.m.tables.get(table) else { return Err(Stop::Trap(format!("no table {table}"))) };
        if t.limits.max_size.is_some_and(|n| n < t.limits.initial_size) { return Err(Stop::Trap(format!("table {table} starts larger than its maximum: {:?}", t.limits))) }
        if i >= t.limits.initial_size { return Err(Stop::Trap(format!("table {table} has no slot {i}"))) }
        let mut got = None;
        for e in &self.m.elements {
            let ElementMode::Active { table: et, offset } = &e.mode else { continue };
            let [W::Const(Val::I32(o)), W::End] = &offset[..] else { return Err(Stop::Unknown("element offset".into())) };
            if et.to_usize() != table || i < *o as u32 { continue }
            if *o as u32 as usize + e.init.len() > t.limits.initial_size as usize { return Err(Stop::Trap(format!("table {table} is too small for its elements"))) }
            if let Some(init) = e.init.get((i - *o as u32) as usize) {
                let [W::RefFunc(f), W::End] = &init[..] else { return Err(Stop::Unknown("element".into())) };
                got = Some(f.to_u32());
            }
        }
        got.ok_or_else(|| Stop::Trap(format!("slot {i} of table {table} is empty")))
    }
}
fn bits(v: &Val) -> u64 { match v { Val::I32(v) => *v as u32 as u64, Val::I64(v) => *v as u64, Val::F32(v) => v.0 as u64, Val::F64(v) => v.0 } }
fn of_bits(t: ValType, b: u64) -> Val { match t { ValType::I32 => Val::I32(b as i32), ValType::I64 => Val::I64(b as i64), ValType::F32 => Val::F32(F32(b as u32)), _ => Val::F64(F64(b)) } }
fn loaded(o: LoadOp, b: u64) -> Val {
    use LoadOp::*;
    match o {
        I32Load8S => Val::I32(b as i8 as i32), I32Load16S => Val::I32(b as i16 as i32),
        I64Load8S => Val::I64(b as i8 as i64), I64Load16S => Val::I64(b as i16 as i64), I64Load32S => Val::I64(b as i32 as i64),
        o => of_bits(ld_ty(o), b),
    }
}
/// instruction, body, else body
struct Node(W, Vec<Node>, Option<Vec<Node>>);
fn nested_of(b: &[W]) -> Option<Vec<Node>> {
    fn go(b: &[W], k: &mut usize) -> Option<Vec<Node>> {
        let mut out = vec![];
        loop {
            let w = b.get(*k)?;
            match w {
                W::End | W::Else => return Some(out),
                W::Block(_) | W::Loop(_) => { *k += 1; let x = go(b, k)?; if b[*k] != W::End { return None } *k += 1; out.push(Node(w.clone(), x, None)) }
                W::If(_) => {
                    *k += 1;
                    let x = go(b, k)?;
                    let e = if b[*k] == W::Else { *k += 1; let e = go(b, k)?; if b[*k] != W::End { return None } Some(e) } else { None };
                    *k += 1;
                    out.push(Node(w.clone(), x, e))
                }
                w => { *k += 1; out.push(Node(w.clone(), vec![], None)) }
            }
        }
    }
    let mut k = 0;
    let n = go(b, &mut k)?;
    (b[k] == W::End && k + 1 == b.len()).then_some(n)
}
fn machine(m: &Module) -> Machine<'_> { Machine { m, mem: vec![], max_pages: 5, fuel: 200_000, reached: vec![] } }

// ---------------------------------------------------------------- C20, C21
fn well_nested(b: &[W]) -> bool { nested_of(b).is_some() }
fn positions_only(b: &[N]) -> Vec<N> { b.iter().map(|n| N { ty: if n.kids.is_empty() { n.ty } else { Ty::Unreachable }, kids: n.kids.iter().map(|k| positions_only(k)).collect(), ..n.clone() }).collect() }
fn nesting(prop: &str, thorough: bool, r: &mut Rng, out: &mut Out) {
    for c in 0..if thorough { 120_000 } else { 12_000 } {
        let mut m = random_module(r, false);
        let fs: Vec<u32> = (0..m.functions.len() as u32).filter(|f| m.functions[*f as usize].code().is_some()).collect();
        let f = r.pick(&fs);
        let mut body = m.functions[f as usize].code().unwrap().body.clone();
        if c % 400 == 7 { // deep
            let d = 1 + r.below(150);
            let t = FunctionType::empty();
            let mut b: Vec<W> = (0..d).map(|_| match r.below(3) { 0 => W::Block(t), 1 => W::Loop(t), _ => W::If(t) }).collect();
            b.extend((0..d).map(|_| W::End));
            b.append(&mut body);
            body = b;
        }
        if prop == "C20" && r.one_in(2) {
            for _ in 0..1 + r.below(3) {
                let at = r.below(body.len() + 1);
                match r.below(5) {
                    0 if !body.is_empty() => { body.remove(at.min(body.len() - 1)); }
                    1 => { let w = [W::End, W::Else, W::Block(FunctionType::empty()), W::If(FunctionType::empty()), W::Loop(FunctionType::empty())][r.below(5)].clone(); body.insert(at, w) }
                    2 => { body.pop(); }
                    3 if body.len() > 1 => { let j = r.below(body.len()); let i = at.min(body.len() - 1); body.swap(i, j) }
                    _ => { if let Some(k) = body.iter().position(|w| matches!(w, W::End | W::Else)) { body.remove(k); } }
                }
            }
        }
        m.function_mut(f.into()).code_mut().unwrap().body = body.clone();
        let d = format!("function {f}, body {body:?}");
        let ok = well_nested(&body);
        let fun = m.function(f.into());
        let idx: Idx<Function> = f.into();
        let typed = guard(|| HighLevelBody::try_from((&m, fun, fun.code().unwrap(), &idx)));
        if prop == "C20" {
            let res = (|| {
                let t = typed.clone()?;
                let u = guard(|| VerifUntypedBody::try_from(LowLevelBody(body.clone())))?;
                if !ok {
                    if t.is_ok() { return Err("the body is not well nested, but its typed conversion succeeded".to_string()) }
                    if u.is_ok() { return Err("the body is not well nested, but its conversion succeeded".to_string()) }
                    return Ok(());
                }
                let t = t.map_err(|e| format!("a well-nested body is rejected: {e}"))?;
                let u = u.map_err(|e| format!("a well-nested body is rejected: {e}"))?;
                let mut own = flatten(&read(&t.0));
                own.push(W::End);
                if own != body { return Err(format!("the nested form is {}", show(&read(&t.0)))) }
                if u.0 != untyped(&body) { return Err(format!("the nested form is {u:?}")) }
                let LowLevelBody(b1) = guard(|| LowLevelBody::from(t))?;
                if b1 != body { return Err(format!("nested and flattened again: {b1:?}")) }
                let LowLevelBody(b2) = guard(|| LowLevelBody::from(u))?;
                if b2 != body { return Err(format!("nested and flattened again (untyped): {b2:?}")) }
                Ok(())
            })();
            out.check(&d, res);
            // any nested body flattens to its own instructions
            if c % 3 == 0 {
                let b = if r.one_in(2) { instrumented(r, &mut m).unwrap_or_default() } else { original(r) };
                let mut want = flatten(&b);
                want.push(W::End);
                let res = guard(|| LowLevelBody::from(HighLevelBody(write(&b)))).and_then(|LowLevelBody(got)| if got == want { Ok(()) } else { Err(format!("flattened to {got:?}")) });
                out.check(&format!("nested body [{}]", show(&b)), res);
            }
        } else {
            let mut tc = wasabi_wasm::types::TypeChecker::begin_function(fun, &m);
            let types: Vec<Ty> = body.iter().map(|w| tc.check_next_instr(w).unwrap()).collect();
            let res = typed.and_then(|t| {
                let t = t.map_err(|e| format!("rejected: {e}"))?;
                let want = nest(f, &body, &types);
                match differ(&positions_only(&want), &positions_only(&read(&t.0)), &|_| false) { None => Ok(()), Some(e) => Err(format!("{e} in [{}]", show(&read(&t.0)))) }
            });
            out.check(&d, res);
        }
    }
}
fn untyped(b: &[W]) -> Vec<VerifUntypedInstr> {
    fn go(b: &[Node]) -> Vec<VerifUntypedInstr> {
        b.iter().map(|n| match &n.0 {
            W::Block(t) => VerifUntypedInstr::Block(*t, VerifUntypedBody(go(&n.1))),
            W::Loop(t) => VerifUntypedInstr::Loop(*t, VerifUntypedBody(go(&n.1))),
            W::If(t) => VerifUntypedInstr::If(*t, VerifUntypedBody(go(&n.1)), n.2.as_ref().map(|e| VerifUntypedBody(go(e)))),
            w => leaf_untyped(w).unwrap(),
        }).collect()
    }
    go(&nested_of(b).unwrap())
}

// ---------------------------------------------------------------- C30
/// (family, operation, code the real hook passes)
pub fn codes() -> Vec<(&'static str, String, Option<i32>)> {
    let mut v = vec![];
    let a = Memarg { alignment_exp_bytes: 0, offset: 0 };
    let ops: Vec<(&'static str, String, H)> = UnaryOp::ALL.iter().map(|o| ("unary", format!("{o:?}"), H::Unary(*o)))
        .chain(BinaryOp::ALL.iter().map(|o| ("binary", format!("{o:?}"), H::Binary(*o))))
        .chain(LoadOp::ALL.iter().map(|o| ("load", format!("{o:?}"), H::Load(*o, a))))
        .chain(StoreOp::ALL.iter().map(|o| ("store", format!("{o:?}"), H::Store(*o, a)))).collect();
    for (fam, op, h) in ops {
        let mut cs = BTreeSet::new();
        for hk in &HOOKS {
            let n = N { f: 1, i: 2, x: Some(false), ty: Ty::Unreachable, h: h.clone(), kids: vec![] };
            let got = run_hook(hk, HOOK, &[n], &mut Module::new()).map(|b| read(&b)).unwrap_or_default();
            if got.len() > 3 && got.iter().any(|n| n.h == H::Call(HOOK.into())) {
                if let Some(c) = got.iter().rev().find_map(|n| if let H::Const(Val::I32(c)) = n.h { Some(c) } else { None }) { cs.insert(c); }
            }
        }
        for c in &cs { v.push((fam, op.clone(), Some(*c))) }
        if cs.is_empty() { v.push((fam, op, None)) }
    }
    v
}

// ---------------------------------------------------------------- C31
fn branch_tables(thorough: bool, r: &mut Rng, out: &mut Out) {
    let hk = HOOKS.iter().find(|h| h.name == "BrTable").unwrap();
    for c in 0..if thorough { 6_000 } else { 900 } {
        let n = match c { 0..=9 => c, 10 => 300, 11 => 127, 12 => 128, 13 => 1000, _ => num(r, 6, 5000).map(|n| n as usize).unwrap_or_else(|| r.below(12)) };
        let big = |r: &mut Rng| if let Some(n) = num(r, 4, i32::MAX as u64) { n as u32 } else if r.one_in(12) { [i32::MAX as u32, 65535, 128][r.below(3)] } else { r.below(9) as u32 };
        let table: Vec<Label> = (0..n).map(|_| Label::from(big(r))).collect();
        let default = Label::from(big(r));
        let w = H::BrTable { table: table.clone().into_boxed_slice(), default };
        let mut m = if r.one_in(2) { random_module(r, false) } else { Module::new() };
        let before = m.clone();
        let mut body = vec![N { f: 1, i: 2, x: Some(false), ty: Ty::Unreachable, h: w.clone(), kids: vec![] }];
        if r.one_in(3) { body.push(N { i: 3, ..body[0].clone() }) }
        let d = format!("table {table:?} default {default:?}");
        let got = run_hook(hk, HOOK, &body, &mut m).map(|b| read(&b));
        let res = got.and_then(|got| {
            let tables: Vec<&N> = got.iter().filter(|n| n.x == Some(false)).collect();
            if tables.len() != body.len() || tables.iter().any(|n| n.h != w) { return Err(format!("the table became [{}]", show(&got))) }
            if m.functions[..before.functions.len()] != before.functions[..] { return Err("other functions of the module changed".into()) }
            let calls: Vec<u32> = got.iter().filter_map(|n| match n.h { H::Call(f) if f.to_u32() != HOOK => Some(f.to_u32()), _ => None }).collect();
            if calls.len() != body.len() { return Err(format!("no helper is called: [{}]", show(&got))) }
            for h in calls {
                if !is_helper(&m, h) { return Err(format!("function {h} is no helper of type i32 -> i32, i32")) }
                let mut idx: Vec<i32> = (0..n as i32 + 3).take(40).chain([n as i32 - 1, n as i32, n as i32 + 1, -1, i32::MIN, i32::MAX, 65536]).collect();
                idx.extend((0..5).map(|_| r.next() as i32));
                idx.extend(dict().nums.iter().map(|n| *n as i32));
                for i in idx {
                    let want = table.get(i as u32 as usize).unwrap_or(&default).to_u32() as i32;
                    match machine(&m).invoke(&mut NoHost, h, vec![Val::I32(i)]) {
                        Ok(v) if v == [Val::I32(i), Val::I32(want)] => {}
                        Ok(v) => return Err(format!("index {i}: the helper returns {v:?}, expected {i} and label {want}")),
                        Err(Stop::Trap(e)) => return Err(format!("index {i}: {e}")),
                        Err(Stop::Unknown(_)) => return Ok(()),
                    }
                }
            }
            Ok(())
        });
        out.check(&d, res);
    }
}

// ---------------------------------------------------------------- C32
fn memory_helpers(thorough: bool, r: &mut Rng, out: &mut Out) {
    use crate::instrument::memory as mem;
    let t = |a: &[ValType], b: &[ValType]| FunctionType::new(a, b);
    let ld = |o: LoadOp| { let s = format!("{o:?}"); match s.split_once("Load").unwrap() { (t, "") => format!("instrumented_base_load_{}", t.to_lowercase()), (t, w) => format!("instrumented_base_load_{}_{w}", t.to_lowercase()) } };
    let sn = |o: StoreOp| { let s = format!("{o:?}"); match s.split_once("Store").unwrap() { (t, "") => format!("instrumented_base_store_{}", t.to_lowercase()), (t, w) => format!("instrumented_base_store_{}_{w}", t.to_lowercase()) } };
    let i32_ = ValType::I32;
    let mut want: Vec<(String, FunctionType)> = LoadOp::ALL.iter().map(|o| (ld(*o), t(&[i32_, i32_], &[ld_ty(*o)]))).collect();
    want.extend(StoreOp::ALL.iter().map(|o| (sn(*o), t(&[i32_, st_ty(*o), i32_], &[]))));
    want.push(("instrumented_memory_grow".into(), t(&[i32_, i32_], &[i32_])));
    want.push(("instrumented_memory_size".into(), t(&[i32_], &[i32_])));
    for c in 0..if thorough { 1500 } else { 150 } {
        let mut m = if c < 2 { Module::new() } else { random_module(r, true) };
        m.memories.clear();
        let has = c % 2 == 1;
        if has { m.memories.push(Memory { limits: Limits { initial_size: r.below(3) as u32, max_size: if r.one_in(3) { Some(r.below(4) as u32) } else { None } }, import: if r.one_in(2) { Some(("env".into(), "memory".into())) } else { None }, export: vec![] }) }
        let before = m.clone();
        let res = guard(|| { mem::inject_memory_loads(&mut m); mem::inject_memory_stores(&mut m); mem::inject_memory_grow(&mut m); mem::inject_memory_size(&mut m) });
        let d0 = format!("module with{} memory and {} functions", if has { "" } else { "out" }, before.functions.len());
        out.note(&d0);
        if let Err(e) = res { out.fail(d0, e); continue }
        if m.functions[..before.functions.len()] != before.functions[..] || m.memories != before.memories || m.globals != before.globals || m.tables != before.tables || m.elements != before.elements { out.fail(d0.clone(), "the rest of the module changed".into()) }
        let added: Vec<&str> = m.functions[before.functions.len()..].iter().flat_map(|f| f.export.iter().map(|s| s.as_str())).collect();
        let find = |n: &str| m.functions.iter().enumerate().skip(before.functions.len()).filter(|(_, f)| f.export.iter().any(|e| e == n)).map(|(i, _)| i as u32).collect::<Vec<_>>();
        for a in &added { if !want.iter().any(|w| w.0 == *a) { out.fail(d0.clone(), format!("{a} is exported, which is no documented helper")) } }
        let mut ok = true;
        for (n, ty) in &want {
            let f = find(n);
            if f.len() != 1 || added.iter().filter(|a| *a == n).count() != 1 { out.fail(d0.clone(), format!("{n} is exported {} times", f.len())); ok = false }
            else if m.functions[f[0] as usize].type_ != *ty { out.fail(d0.clone(), format!("{n} has type {:?}, documented is {ty:?}", m.functions[f[0] as usize].type_)); ok = false }
        }
        for f in &m.functions[before.functions.len()..] {
            for w in f.code().map(|c| &c.body[..]).unwrap_or(&[]) {
                let bad = match w { W::Load(o, a) => a.alignment_exp_bytes > o.width().trailing_zeros() as u8, W::Store(o, a) => a.alignment_exp_bytes > o.width().trailing_zeros() as u8, W::MemorySize(i) | W::MemoryGrow(i) => i.to_u32() != 0, _ => false };
                if bad { out.fail(d0.clone(), format!("{:?} has invalid code: {w:?}", f.export)); ok = false }
            }
        }
        if !ok { continue }
        let pages = if has { 1 + r.below(2) } else { 0 };
        let memory: Vec<u8> = (0..pages * 65536).map(|i| (i as u64).wrapping_mul(0x9E3779B97F4A7C15).to_be_bytes()[2]).collect();
        for _ in 0..4 {
            for (n, ty) in &want {
                let f = find(n)[0];
                let len = memory.len() as u32;
                let (p, o) = match r.below(6) { 0 => (0, 0), 1 => (len.saturating_sub(r.below(10) as u32), 0), 2 => (0, len.saturating_sub(r.below(10) as u32)), 3 => (r.below(len as usize + 1) as u32, r.below(40) as u32), 4 => (r.below(200) as u32, r.below(200) as u32), _ => (r.below(len as usize / 2 + 1) as u32, r.below(len as usize / 2 + 9) as u32) };
                let p = num(r, 5, len as u64).map(|n| n as u32).unwrap_or(p);
                let o = num(r, 5, len as u64).map(|n| n as u32).unwrap_or(o);
                let v = num(r, 5, u64::MAX).unwrap_or_else(|| r.next());
                let mut mc = machine(&m);
                mc.mem = memory.clone();
                let lo = LoadOp::ALL.iter().find(|o| ld(**o) == *n);
                let so = StoreOp::ALL.iter().find(|o| sn(**o) == *n);
                let at = p as usize + o as usize;
                let (args, exp, mut after): (Vec<Val>, Option<Vec<Val>>, Vec<u8>) = if let Some(op) = lo {
                    let w = op.width() as usize;
                    let e = if !has { Some(vec![ld_ty(*op).zero()]) } else if at + w > memory.len() { None } else { let mut b = [0u8; 8]; b[..w].copy_from_slice(&memory[at..at + w]); Some(vec![loaded(*op, u64::from_le_bytes(b))]) };
                    (vec![Val::I32(p as i32), Val::I32(o as i32)], e, memory.clone())
                } else if let Some(op) = so {
                    let w = op.width() as usize;
                    let mut a = memory.clone();
                    let e = if !has { Some(vec![]) } else if at + w > memory.len() { None } else { a[at..at + w].copy_from_slice(&bits(&of_bits(st_ty(*op), v)).to_le_bytes()[..w]); Some(vec![]) };
                    (vec![Val::I32(p as i32), of_bits(st_ty(*op), v), Val::I32(o as i32)], e, a)
                } else if n == "instrumented_memory_grow" {
                    let by = [0, 1, 2, 3, 4, 100, -1][r.below(7)];
                    let (mut a, mut e) = (memory.clone(), -1);
                    if has && by >= 0 && pages + by as usize <= mc.max_pages { e = pages as i32; a.resize((pages + by as usize) * 65536, 0) }
                    (vec![Val::I32(by), Val::I32(0)], Some(vec![Val::I32(e)]), a)
                } else { (vec![Val::I32(0)], Some(vec![Val::I32(pages as i32)]), memory.clone()) };
                let d = format!("{n}({args:?}) of type {ty:?} on {pages} pages");
                out.note(&d);
                let got = mc.invoke(&mut NoHost, f, args);
                let mem_ok = { let same = mc.mem == after; after.clear(); same };
                match (got, exp) {
                    (Err(Stop::Unknown(_)), _) => {}
                    (Err(Stop::Trap(e)), None) if e.contains("out of bounds") => {}
                    (Err(Stop::Trap(e)), _) => out.fail(d, e),
                    (Ok(v), None) => out.fail(d, format!("gives {v:?}, the access is out of bounds")),
                    (Ok(v), Some(e)) if v != e => out.fail(d, format!("gives {v:?}, expected {e:?}")),
                    (Ok(_), Some(_)) => if !mem_ok { out.fail(d, "the memory afterwards is not as expected".into()) },
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C33
fn interfaces(r: &mut Rng, out: &mut Out) {
    let mut codes = Codes::default();
    let wt = |t: ValType| match t { ValType::I32 => WasmType::I32, ValType::I64 => WasmType::I64, ValType::F32 => WasmType::F32, _ => WasmType::F64 };
    let mut names: BTreeMap<String, &str> = BTreeMap::new();
    let s = Scope { locals: NUM.to_vec(), globals: NUM.to_vec(), funs: vec![], wild: true };
    for hk in &HOOKS {
        let e = match guard(|| (hk.interface)()) { Ok(e) => e, Err(p) => { out.fail(hk.name.into(), p); continue } };
        let n = e.name.to_string();
        out.note(&format!("{} {n}", hk.name));
        if let Some(o) = names.insert(n.clone(), hk.name) { out.fail(format!("hooks {o} and {}", hk.name), format!("share the name {n}")) }
        let two = |k: usize| vt(&hk.name[k..k + 3]);
        // the operands an instruction hands to its hook, and what the program goes on with
        let (ops, back): (Vec<ValType>, Vec<ValType>) = match hk.name {
            "BlockPre" | "LoopPre" | "BlockPost" | "LoopPost" | "IfThenPost" | "IfThenElsePost" | "Br" | "Pre" | "Post" | "IndirectPost" | "Drop" | "Return" => (vec![], vec![]),
            "Select" | "IfThen" | "IfThenElse" | "BrIf" | "BrTable" | "IndirectPre" | "MemorySize" | "MemoryGrow" => (vec![ValType::I32], vec![ValType::I32]),
            x if x.starts_with("Const") => (vec![two(5)], vec![two(5)]),
            x if x.starts_with("Unary") => (vec![two(5)], vec![two(10)]),
            x if x.starts_with("Binary") => (vec![two(6), two(9)], vec![two(14)]),
            x if x.len() == 7 && x.ends_with("Load") => (vec![ValType::I32], vec![two(0)]),
            x if x.len() == 8 && x.ends_with("Store") => (vec![ValType::I32, two(0)], vec![]),
            x => { let t = vt(&x[x.len() - 3..]); (vec![t], vec![t]) }
        };
        // the static operands are whatever constants the real call site pushes
        let mut k = 0;
        let mut pushed = None;
        while let Some(w) = kinds(r, k) {
            k += 1;
            for tail in [vec![], vec![W::End], vec![W::Else, W::End]] {
                if matches!(w, W::Block(_) | W::Loop(_) | W::If(_)) == tail.is_empty() || (tail.len() == 2 && !matches!(w, W::If(_))) { continue }
                let fl: Vec<W> = [w.clone()].into_iter().chain(tail).collect();
                let ty: Vec<Ty> = fl.iter().map(|w| natural(w, &s)).collect();
                let b = nest(3, &fl, &ty);
                if matches!(act(hk, &b[0], &mut codes), Act::Keep) { continue }
                let mut m = Module::new();
                let Ok(got) = run_hook(hk, HOOK, &b, &mut m) else { continue };
                let got = read(&got);
                walk(&got, &mut |l, j| if matches!(l[j].h, H::Call(f) if f.to_u32() == HOOK) {
                    let mut t = vec![];
                    let mut q = j;
                    while q > 0 && l[q - 1].x == Some(true) {
                        q -= 1;
                        match &l[q].h { H::Const(v) => t.push(val_ty(v)), H::Call(_) => t.push(ValType::I32), _ => break }
                    }
                    t.reverse();
                    pushed = Some(t);
                });
            }
        }
        if hk.name == "BrTable" {
            let b = vec![N { f: 0, i: 0, x: Some(false), ty: Ty::Unreachable, h: H::BrTable { table: Box::new([]), default: 0u32.into() }, kids: vec![] }];
            if let Ok(g) = run_hook(hk, HOOK, &b, &mut Module::new()) { pushed = Some(read(&g).iter().take_while(|n| n.h != H::Call(HOOK.into())).filter(|n| n.x == Some(true)).map(|n| match &n.h { H::Const(v) => val_ty(v), _ => ValType::I32 }).collect()) }
        }
        let Some(pushed) = pushed else { out.fail(hk.name.into(), "the hook is called nowhere".into()); continue };
        let args: Vec<WasmType> = ops.iter().chain(&pushed).map(|t| wt(*t)).collect();
        let res: Vec<WasmType> = back.iter().map(|t| wt(*t)).collect();
        if e.args != args || e.results != res { out.fail(format!("hook {}", hk.name), format!("is declared {:?} -> {:?}; its call sites need {args:?} -> {res:?}", e.args, e.results)) }
        let n = e.args.len();
        if n < 2 || e.args[n - 2..] != [WasmType::I64, WasmType::I64] { out.fail(format!("hook {}", hk.name), format!("does not end in the location parameters: {:?}", e.args)) }
    }
    let (a, b) = AnalysisInterface::interface_generic_apply();
    out.note("generic apply");
    if names.contains_key(&a.name.to_string()) || a.name.to_string() == b.name.to_string() { out.fail("generic apply".into(), "shares its name with a hook".into()) }
    use WasmType::I32 as I;
    if a.args != [I, I, I, I, I, I, I] || !a.results.is_empty() || b.args != [I, I] || !b.results.is_empty() { out.fail("generic apply".into(), format!("is declared {:?} {:?} {:?} {:?}", a.args, a.results, b.args, b.results)) }
}

// ---------------------------------------------------------------- C34
fn support_names(thorough: bool, r: &mut Rng, out: &mut Out) {
    use wc::{RefType as R, Signature, SignatureSide as Side, WasmType as T};
    let mk = |k: usize| match k { 0 => T::I32, 1 => T::F32, 2 => T::I64, 3 => T::F64, 4 => T::Ref(R::FuncRef), _ => T::Ref(R::ExternRef) };
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    for a in 0..6 { lists.push(vec![a]); for b in 0..6 { lists.push(vec![a, b]) } }
    let mut sigs: Vec<(Vec<usize>, Vec<usize>)> = vec![];
    for a in &lists { for b in &lists { sigs.push((a.clone(), b.clone())) } }
    for _ in 0..if thorough { 60_000 } else { 4_000 } {
        let l = |r: &mut Rng| (0..num(r, 8, 400).map(|n| n as usize).unwrap_or_else(|| r.below(14))).map(|_| r.below(6)).collect::<Vec<_>>();
        let mut s = (l(r), l(r));
        sigs.push(s.clone());
        // near neighbours: one type moved from one side to the other, two swapped, one dropped
        if let Some(x) = s.0.pop() { sigs.push(s.clone()); s.1.insert(0, x); sigs.push(s.clone()) }
        if s.1.len() > 1 { s.1.swap(0, 1); sigs.push(s) }
    }
    // long signatures that differ only in one place, often the last
    for n in (15..if thorough { 140 } else { 70 }).chain([127, 128, 129, 255, 256, 257]).chain(dict().nums.iter().filter(|n| **n < 400).flat_map(|n| [*n as usize + 1, *n as usize + 2])) {
        let long: Vec<usize> = (0..n).map(|_| r.below(6)).collect();
        for at in [0, r.below(n), n - 2, n - 1] {
            let mut other = long.clone();
            other[at] = (other[at] + 1 + r.below(5)) % 6;
            sigs.push((other.clone(), vec![]));
            sigs.push((vec![0], other));
        }
        sigs.push((long.clone(), vec![]));
        sigs.push((vec![0], long));
    }
    let mut seen: HashMap<String, (String, Vec<usize>, Vec<usize>)> = HashMap::new();
    for (a, b) in sigs {
        let make = || Signature { return_types: b.iter().map(|k| mk(*k)).collect(), argument_types: a.iter().map(|k| mk(*k)).collect() };
        let names = |s: &Signature| -> Vec<(String, String)> {
            let mut v: Vec<(String, String)> = vec![
                ("allocate values".into(), s.generate_allocate_values_buffer_name()), ("allocate types".into(), s.generate_allocate_types_buffer_name()),
                ("free values".into(), s.generate_free_values_buffer_name()), ("free types".into(), s.generate_free_types_buffer_name()),
                ("store arguments".into(), s.generate_store_args_name()), ("store results".into(), s.generate_store_rets_name()),
            ];
            for i in (0..s.argument_types.len()).chain([10, 11, 100]).chain(dict().nums.iter().map(|n| *n as usize)) { v.push((format!("load argument {i}"), s.generate_load_name(Side::Argument, i))); v.push((format!("store argument {i}"), s.generate_store_name(Side::Argument, i))); }
            for i in (0..s.return_types.len()).chain([10, 11, 100]).chain(dict().nums.iter().map(|n| *n as usize)) { v.push((format!("load result {i}"), s.generate_load_name(Side::Return, i))); v.push((format!("store result {i}"), s.generate_store_name(Side::Return, i))); }
            v
        };
        let (x, y) = match (guard(|| names(&make())), guard(|| names(&make()))) { (Ok(x), Ok(y)) => (x, y), (Err(e), _) | (_, Err(e)) => { out.fail(format!("arguments {a:?} results {b:?}"), e); continue } };
        out.note(&format!("arguments {a:?} results {b:?}"));
        if x != y { out.fail(format!("arguments {a:?} results {b:?}"), "the same function gets two names".into()) }
        for (p, n) in x {
            let me = (p, a.clone(), b.clone());
            match seen.get(&n) {
                Some(o) if *o != me => { let o = o.clone(); out.fail(format!("{me:?} and {o:?}"), format!("both are named {n}")) }
                Some(_) => {}
                None => { seen.insert(n, me); }
            }
        }
    }
}

// ---------------------------------------------------------------- instrumenting and merging with stand-in languages
#[derive(Debug, Clone)]
pub struct Lang;
pub struct Opts(Vec<u8>);
impl SourceCodeBound for Lang { type DefaultCompilerOptions = Opts; type SourceCode = Vec<u8>; }
impl DefaultCompilerOptions<Lang> for Opts { fn default_for(l: Vec<u8>) -> Self { Opts(l) } }
thread_local! { static ASKED: std::cell::RefCell<Vec<Vec<String>>> = Default::default(); }
impl LibGeneratable for Lang {
    fn generate_lib(signatures: &[wc::Signature]) -> Library<Self> {
        ASKED.with(|a| a.borrow_mut().push(signatures.iter().map(|s| format!("{s:?}")).collect()));
        Library { content: b"support library".to_vec(), language: PhantomData }
    }
}
pub struct Comp(&'static str, Option<Vec<u8>>);
impl Compiles<Lang> for Comp {
    type CompilerOptions = Opts;
    type CompilerSetupError = ();
    fn setup_compiler() -> Result<Self, ()> { Ok(Comp("c", None)) }
    fn compile(&self, o: &Opts) -> CompilationResult<Lang> { if let Some(b) = &self.1 { return Ok(b.clone()) } Ok([self.0.as_bytes(), b" of ", &o.0].concat()) }
}
fn interface(hooks: &[&Hook], generic: bool) -> AnalysisInterface {
    let mut a = AnalysisInterface::default();
    for h in hooks { (h.set)(&mut a, (h.interface)()) }
    if generic { a.generic_interface = Some(AnalysisInterface::interface_generic_apply()) }
    a
}
fn record(b: &[u8]) -> Option<Vec<(String, Option<Vec<u8>>)>> {
    let mut i = 0;
    let mut get = || -> Option<Vec<u8>> {
        let n = u32::from_le_bytes(b.get(i..i + 4)?.try_into().ok()?) as usize;
        let v = b.get(i + 4..i + 4 + n)?.to_vec();
        i += 4 + n;
        Some(v)
    };
    let mut out = vec![];
    while let Some(a) = get() {
        let k = get()?;
        let f = if k == b"f" { Some(get()?) } else { None };
        out.push((String::from_utf8(a).ok()?, f));
    }
    Some(out)
}
fn merging(thorough: bool, r: &mut Rng, out: &mut Out) {
    use crate::{Configuration, PrimaryTarget, Wastrumenter};
    for c in 0..if thorough { 1600 } else { 240 } {
        let primary = [None, Some(PrimaryTarget::Analysis), Some(PrimaryTarget::Target), Some(PrimaryTarget::Instrumentation)][c % 4];
        let generic = c / 4 % 2 == 0;
        let m = random_module(r, true);
        let hooks: Vec<&Hook> = (0..r.below(4)).map(|_| &HOOKS[r.below(HOOKS.len())]).collect();
        let ts = if r.one_in(2) { None } else { Some((0..3).map(|_| r.below(6) as u32).collect::<Vec<_>>()) };
        let src: Vec<u8> = (0..r.below(20)).map(|_| r.next() as u8).collect();
        let bytes = m.to_bytes().unwrap();
        // what the compilers give: mostly text of their own; sometimes nothing, the same bytes, the bytes the instrumented program will have
        let (mut ca, mut cs) = ([b"analysis of ".as_slice(), &src].concat(), b"support of support library".to_vec());
        match r.below(8) {
            0 => ca = vec![],
            1 => cs = vec![],
            2 => ca = cs.clone(),
            3 => { ca = vec![]; cs = vec![] }
            4 | 5 => {
                let next = u64::from_le_bytes(bytes[4..12].try_into().unwrap()) + 1;
                let t = [b"stub".as_slice(), &next.to_le_bytes()].concat();
                match r.below(3) { 0 => ca = t, 1 => cs = t, _ => { ca = t.clone(); cs = t } }
            }
            _ => {}
        }
        let w = Wastrumenter::<Lang, Comp, Lang, Comp>::new(Box::new(Comp("support", (cs != b"support of support library").then(|| cs.clone()))), Box::new(Comp("analysis", (ca != [b"analysis of ".as_slice(), &src].concat()).then(|| ca.clone()))));
        let a = crate::analysis::ProcessedAnalysis::<Lang> { analysis_library: src.clone(), analysis_interface: interface(&hooks, generic) };
        let d = format!("primary {primary:?}, {} support library, hooks {:?}, {} functions", if generic { "with" } else { "without" }, hooks.iter().map(|h| h.name).collect::<Vec<_>>(), m.functions.len());
        let got = guard(|| w.wastrument(&bytes, a, &Configuration { target_indices: ts.clone(), primary_selection: primary }).map_err(|e| format!("{e:?}")));
        let res = got.and_then(|g| g).and_then(|g| {
            let rec = record(&g).ok_or("what is returned is not what the merger wrote")?;
            let mut pos = vec![];
            let mut it = rec.into_iter();
            while let Some((a, f)) = it.next() { if a == "-o" || a == "--output" { it.next(); } else if !a.starts_with("--") { pos.push((a, f)) } }
            let parts: Vec<(Vec<u8>, String)> = pos.chunks(2).filter(|c| c.len() == 2).map(|c| (c[0].1.clone().unwrap_or_default(), c[1].0.clone())).collect();
            let is = |part: &(Vec<u8>, String)| match part.1.as_str() { "instrumented_input" => part.0.starts_with(b"stub"), "WASTRUMENTATION_ANALYSIS" => part.0 == ca, "wastrumentation_stack" => part.0 == cs, _ => false };
            let show = |b: &[u8]| String::from_utf8_lossy(b).into_owned();
            let have: Vec<String> = parts.iter().map(|(_, n)| n.clone()).collect();
            let mut want = vec!["WASTRUMENTATION_ANALYSIS".to_string(), "instrumented_input".into()];
            if generic { want.push("wastrumentation_stack".into()) }
            let mut sorted = have.clone();
            sorted.sort();
            want.sort();
            if sorted != want { return Err(format!("merged {have:?}, expected {want:?}; the analysis is {:?}, the support library {:?}", show(&ca), show(&cs))) }
            if let Some(p) = parts.iter().find(|p| !is(p)) { return Err(format!("{:?} is merged as {}", show(&p.0), p.1)) }
            let first = match primary { None => None, Some(PrimaryTarget::Analysis) => Some("WASTRUMENTATION_ANALYSIS"), Some(PrimaryTarget::Target) => Some("instrumented_input"), Some(PrimaryTarget::Instrumentation) => generic.then_some("wastrumentation_stack") };
            if first.is_some_and(|f| have[0] != f) { return Err(format!("the primary is {:?}, in {have:?}", have[0])) }
            Ok(())
        });
        out.check(&d, res);
    }
}

// ---------------------------------------------------------------- C40, C41, C42
const ANALYSIS: &str = "WASTRUMENTATION_ANALYSIS";
const STACK: &str = "wastrumentation_stack";
fn mentions_refs(f: &FunctionType) -> bool { f.inputs().iter().chain(f.results()).any(|t| matches!(t, ValType::Ref(_))) }
fn function_type_of(e: &WasmExport) -> FunctionType {
    let t = |v: &[WasmType]| v.iter().map(|t| match t { WasmType::I32 => ValType::I32, WasmType::F32 => ValType::F32, WasmType::I64 => ValType::I64, WasmType::F64 => ValType::F64 }).collect::<Vec<_>>();
    FunctionType::new(&t(&e.args), &t(&e.results))
}
/// helper calls are numbered differently in each run
fn normal(m: &Module, from: usize, b: &[W]) -> Vec<W> { b.iter().map(|w| match w { W::Call(f) if f.to_usize() >= from && f.to_usize() < m.functions.len() && m.functions[f.to_usize()].code().is_some() && is_helper(m, f.to_u32()) => W::Call(HELPER.into()), w => w.clone() }).collect() }
fn apply_in(order: &[(&Hook, u32)], m0: &Module, room: usize, f: u32) -> Result<(Module, Vec<N>), String> {
    let mut m = m0.clone();
    // functions the passes add get numbers no hook has
    while m.functions.len() < room { m.add_function_import(FunctionType::empty(), "verif".into(), "filler".into()); }
    let fun = m0.function(f.into());
    let idx: Idx<Function> = f.into();
    let HighLevelBody(b) = guard(|| HighLevelBody::try_from((m0, fun, fun.code().unwrap(), &idx)))?.map_err(|e| format!("{e}"))?;
    let mut b = read(&b);
    for (h, call) in order { b = read(&run_hook(h, *call, &b, &mut m)?) }
    Ok((m, b))
}
fn calls_of(b: &[W], hooks: &BTreeMap<u32, &str>) -> Vec<(String, i64, i64)> {
    let mut v: Vec<(String, i64, i64)> = vec![];
    for (j, w) in b.iter().enumerate() {
        if let W::Call(f) = w { if let (Some(h), true) = (hooks.get(&f.to_u32()), j >= 2) { if let (W::Const(Val::I64(a)), W::Const(Val::I64(c))) = (&b[j - 2], &b[j - 1]) { v.push((h.to_string(), *a, *c)) } else { v.push((h.to_string(), -1, -1)) } } }
    }
    v.sort();
    v
}
struct Setup { m: Module, hooks: Vec<&'static Hook>, ts: Option<Vec<u32>>, generic: bool }
impl Setup {
    fn show(&self) -> String { format!("hooks {:?}, {}targets {:?}, module [{}]", self.hooks.iter().map(|h| h.name).collect::<Vec<_>>(), if self.generic { "generic apply, " } else { "" }, self.ts, show_module(&self.m)) }
    fn selected(&self, f: u32) -> bool { self.ts.as_ref().is_none_or(|t| t.contains(&f)) && !mentions_refs(&self.m.functions[f as usize].type_) }
    fn run(&self) -> Result<Module, String> {
        let a = interface(&self.hooks, self.generic);
        let b = self.m.to_bytes().unwrap();
        let i = guard(|| crate::instrument::instrument::<Lang>(&b, &a, &self.ts))?.map_err(|e| format!("error: {e}"))?;
        if i.instrumentation_library.is_some() != self.generic { return Err("the support library is present when it should not be, or absent".into()) }
        Ok(Module::from_bytes(&i.module).unwrap().0)
    }
}
fn setup(r: &mut Rng, generic: bool, hooks: usize) -> Setup {
    let m = random_module(r, true);
    let n = m.functions.len();
    let mut hs: Vec<&'static Hook> = vec![];
    let k = match r.below(8) { 0 => 0, 1 if hooks > 5 => HOOKS.len(), _ => r.below(hooks + 1) };
    if k == HOOKS.len() { hs.extend(HOOKS.iter()) }
    while hs.len() < k { let h = &HOOKS[r.below(HOOKS.len())]; if !hs.iter().any(|x| x.name == h.name) { hs.push(h) } }
    let ts = match r.below(4) { 0 | 1 => None, 2 => Some((0..n as u32).filter(|_| r.one_in(2)).collect()), _ => Some((0..r.below(4)).map(|_| r.below(n + 2) as u32).collect()) };
    Setup { m, hooks: hs, ts, generic }
}
/// the hooks as the instrumented module imports them
fn imports(s: &Setup, got: &Module) -> Result<Vec<(&'static Hook, u32)>, String> {
    let mut order = vec![];
    let gen = AnalysisInterface::interface_generic_apply().0;
    let mut gen_seen = 0;
    for (i, f) in got.functions.iter().enumerate().skip(s.m.functions.len()) {
        let Some((module, name)) = f.import() else { continue };
        if module == STACK && s.generic || module != ANALYSIS && s.generic { continue }
        if module != ANALYSIS { return Err(format!("{module}.{name} is imported")) }
        if s.generic && name == gen.name.to_string() { gen_seen += 1; if f.type_ != function_type_of(&gen) { return Err(format!("{name} is imported with type {:?}", f.type_)) } continue }
        let Some(h) = s.hooks.iter().find(|h| (h.interface)().name.to_string() == name) else { return Err(format!("{name} is imported, which the analysis does not provide")) };
        if order.iter().any(|(o, _): &(&Hook, u32)| o.name == h.name) { return Err(format!("{name} is imported twice")) }
        if f.type_ != function_type_of(&(h.interface)()) { return Err(format!("{name} is imported with type {:?}", f.type_)) }
        order.push((*h, i as u32));
    }
    if gen_seen != s.generic as usize { return Err(format!("generic apply is imported {gen_seen} times")) }
    if let Some(h) = s.hooks.iter().find(|h| !order.iter().any(|(o, _)| o.name == h.name)) { return Err(format!("{} is not imported", (h.interface)().name)) }
    Ok(order)
}
/// whether a flat body is what the imported hooks make of function f
fn hooked(s: &Setup, order: &[(&'static Hook, u32)], got: &Module, f: u32, body: &[W]) -> Result<(), String> {
    let have = normal(got, s.m.functions.len(), body);
    let mut orders = vec![order.to_vec()];
    if order.len() > 1 {
        let mut o: Vec<_> = order.to_vec();
        o.sort_by_key(|(h, _)| HOOKS.iter().position(|x| x.name == h.name));
        orders.push(o);
        let mut o: Vec<_> = order.to_vec();
        o.reverse();
        orders.push(o);
    }
    let mut first = None;
    for o in &orders {
        let (m, b) = apply_in(o, &s.m, got.functions.len(), f)?;
        let mut want = flatten(&b);
        want.push(W::End);
        let want: Vec<W> = want.into_iter().map(|w| match w { W::Call(c) if c.to_usize() >= s.m.functions.len() && !order.iter().any(|(_, i)| *i == c.to_u32()) && c.to_usize() < m.functions.len() && is_helper(&m, c.to_u32()) => W::Call(HELPER.into()), w => w }).collect();
        if want == have { return Ok(()) }
        first = first.or(Some(want));
    }
    let names: BTreeMap<u32, &str> = order.iter().map(|(h, i)| (*i, h.name)).collect();
    let want = first.unwrap();
    if order.len() > 1 && calls_of(&want, &names) == calls_of(&have, &names) { return Ok(()) }
    Err(format!("function {f} became {have:?}, expected {want:?}"))
}
fn wiring(thorough: bool, r: &mut Rng, out: &mut Out) {
    for c in 0..if thorough { 30_000 } else { 3_000 } {
        let mut s = setup(r, c % 5 == 0, 6);
        if c < HOOKS.len() { s.hooks = vec![&HOOKS[c]] }
        let res = s.run().and_then(|got| {
            let order = imports(&s, &got)?;
            for f in 0..s.m.functions.len() as u32 {
                let (a, b) = (s.m.function(f.into()), got.function(f.into()));
                if a.type_ != b.type_ { return Err(format!("function {f} has another type")) }
                if s.generic && s.selected(f) { continue }
                if a.code().is_none() || !s.selected(f) { continue }
                hooked(&s, &order, &got, f, &b.code().ok_or("function without code")?.body)?;
            }
            Ok(())
        });
        out.check(&s.show(), res);
    }
}
fn selection(thorough: bool, r: &mut Rng, out: &mut Out) {
    for c in 0..if thorough { 40_000 } else { 4_000 } {
        let s = setup(r, c % 3 == 0, 8);
        let res = s.run().and_then(|got| {
            let order = imports(&s, &got).unwrap_or_default();
            for f in 0..s.m.functions.len() as u32 {
                let (a, b) = (s.m.function(f.into()), got.function(f.into()));
                if !s.selected(f) { if a != b { return Err(format!("function {f} is not to be rewritten, but became {b:?}")) } continue }
                if s.generic { if a == b { return Err(format!("function {f} is selected, but was not rewritten")) } continue }
                if a.code().is_none() { if a != b { return Err(format!("imported function {f} became {b:?}")) } continue }
                if order.len() == s.hooks.len() && order.len() == 1 { hooked(&s, &order, &got, f, &b.code().ok_or("function without code")?.body)? }
            }
            Ok(())
        });
        out.check(&s.show(), res);
    }
}
/// the support library and the analysis, played by the harness
struct Analysis<'a> { s: &'a Setup, r: Rng, orig: usize, buffers: Vec<Buf>, applied: Vec<Vec<Val>>, base: Option<u32>, copies: Vec<(u32, Vec<Val>)>, results: Vec<Val>, own: bool, f: u32, log: Vec<String> }
struct Buf { args: Vec<Val>, rets: Vec<Option<Val>>, types: bool, freed: bool }
impl Analysis<'_> {
    fn signature(t: &FunctionType) -> wc::Signature {
        let w = |t: &ValType| match t { ValType::I32 => wc::WasmType::I32, ValType::I64 => wc::WasmType::I64, ValType::F32 => wc::WasmType::F32, ValType::F64 => wc::WasmType::F64, ValType::Ref(RefType::FuncRef) => wc::WasmType::Ref(wc::RefType::FuncRef), _ => wc::WasmType::Ref(wc::RefType::ExternRef) };
        wc::Signature { return_types: t.results().iter().map(w).collect(), argument_types: t.inputs().iter().map(w).collect() }
    }
    fn ptr(v: &Val) -> Result<usize, Stop> { match v { Val::I32(p) if *p >= 1000 => Ok((*p as usize - 1000) / 8), v => Err(Stop::Trap(format!("{v:?} is no buffer"))) } }
    fn buf(&mut self, v: &Val, types: bool) -> Result<&mut Buf, Stop> {
        let k = Self::ptr(v)?;
        let b = self.buffers.get_mut(k).ok_or_else(|| Stop::Trap(format!("{v:?} is no buffer")))?;
        if b.types != types { return Err(Stop::Trap(format!("{v:?} is the buffer of the {}", if b.types { "types" } else { "values" }))) }
        if b.freed { return Err(Stop::Trap(format!("buffer {v:?} is used after it was freed"))) }
        Ok(b)
    }
}
impl Host for Analysis<'_> {
    fn call(&mut self, m: &Module, f: u32, a: Vec<Val>) -> Result<Option<Vec<Val>>, Stop> {
        use wc::SignatureSide as Side;
        let fun = &m.functions[f as usize];
        let trap = |s: String| Err(Stop::Trap(s));
        if let Some((STACK, name)) = fun.import() {
            let t = self.s.m.functions[self.f as usize].type_;
            let sig = Self::signature(&t);
            if name == sig.generate_allocate_values_buffer_name() {
                if a.iter().map(val_ty).ne(t.inputs().iter().cloned()) { return trap(format!("{name} called with {a:?}")) }
                self.buffers.push(Buf { args: a, rets: vec![None; t.results().len()], types: false, freed: false });
                return Ok(Some(vec![Val::I32(1000 + 8 * (self.buffers.len() as i32 - 1))]))
            }
            if name == sig.generate_allocate_types_buffer_name() {
                self.buffers.push(Buf { args: vec![], rets: vec![], types: true, freed: false });
                return Ok(Some(vec![Val::I32(1000 + 8 * (self.buffers.len() as i32 - 1))]))
            }
            if name == sig.generate_free_values_buffer_name() { self.buf(&a[0], false)?.freed = true; return Ok(Some(vec![])) }
            if name == sig.generate_free_types_buffer_name() { self.buf(&a[0], true)?.freed = true; return Ok(Some(vec![])) }
            if name == sig.generate_store_rets_name() { let b = self.buf(&a[0], false)?; b.rets = a[1..].iter().map(|v| Some(*v)).collect(); return Ok(Some(vec![])) }
            for i in 0..t.inputs().len() {
                if name == sig.generate_load_name(Side::Argument, i) { return Ok(Some(vec![self.buf(&a[0], false)?.args[i]])) }
                if name == sig.generate_store_name(Side::Argument, i) { self.buf(&a[0], false)?.args[i] = a[1]; return Ok(Some(vec![])) }
            }
            for i in 0..t.results().len() {
                if name == sig.generate_load_name(Side::Return, i) {
                    let b = self.buf(&a[0], false)?;
                    return match b.rets[i] { Some(v) => Ok(Some(vec![v])), None => trap(format!("result {i} is loaded before it was stored")) }
                }
                if name == sig.generate_store_name(Side::Return, i) { self.buf(&a[0], false)?.rets[i] = Some(a[1]); return Ok(Some(vec![])) }
            }
            return trap(format!("{name} is no support function of type {t:?}"));
        }
        let (apply, _) = AnalysisInterface::interface_generic_apply();
        if fun.import() == Some((ANALYSIS, &apply.name.to_string())) {
            self.applied.push(a.clone());
            let k = Self::ptr(&a[4])?;
            self.buf(&a[4], false)?;
            self.buf(&a[5], true)?;
            if self.own { let r = self.results.clone(); self.buffers[k].rets = r.into_iter().map(Some).collect() }
            else {
                let mut mc = machine(m);
                let base = self.base.unwrap();
                mc.invoke(self, base, vec![a[0], a[4]])?;
                self.log.extend(mc.reached.iter().map(|f| format!("wrapper {f}")));
            }
            return Ok(Some(vec![]))
        }
        // wrappers reached through the table are run; whatever they call is the saved copy
        if f as usize >= self.orig && fun.code().is_some() && fun.type_ == FunctionType::new(&[ValType::I32], &[]) && self.applied.len() == 1 && self.copies.is_empty() && !self.log.iter().any(|l| l == "inside") && a.len() == 1 && a[0] == self.applied[0][4] {
            self.log.push("inside".into());
            return Ok(None)
        }
        self.copies.push((f, a));
        Ok(Some(self.results.clone()))
    }
}
fn interception(thorough: bool, r: &mut Rng, out: &mut Out) {
    for _ in 0..if thorough { 20_000 } else { 2_000 } {
        let s = setup(r, true, 2);
        let d = s.show();
        ASKED.with(|a| a.borrow_mut().clear());
        let got = match s.run() { Ok(g) => g, Err(e) => { out.check(&d, Err(e)); continue } };
        let res = (|| {
            let order = imports(&s, &got)?;
            let asked: Vec<Vec<String>> = ASKED.with(|a| a.borrow().clone());
            let (_, base) = AnalysisInterface::interface_generic_apply();
            let bases: Vec<u32> = (0..got.functions.len() as u32).filter(|f| got.functions[*f as usize].export.iter().any(|e| *e == base.name.to_string())).collect();
            if bases.len() != 1 { return Err(format!("{} is exported {} times", base.name, bases.len())) }
            let mut slots = BTreeSet::new();
            for f in 0..s.m.functions.len() as u32 {
                let (a, b) = (s.m.function(f.into()), got.function(f.into()));
                if a.type_ != b.type_ || a.export != b.export { return Err(format!("function {f} changed its type or exports")) }
                if !s.selected(f) { continue }
                if b.code().is_none() { return Err(format!("function {f} is not intercepted")) }
                let sig = format!("{:?}", Analysis::signature(&a.type_));
                if asked.len() != 1 || asked[0].iter().filter(|x| **x == sig).count() != 1 { return Err(format!("the support library was asked for {asked:?}, function {f} needs {sig}")) }
                for own in [false, true] {
                    let rv = |r: &mut Rng, t: &[ValType]| t.iter().map(|t| of_bits(*t, r.next())).collect::<Vec<_>>();
                    let args = rv(r, a.type_.inputs());
                    let results = rv(r, a.type_.results());
                    let mut h = Analysis { s: &s, r: Rng(r.next() | 1), orig: s.m.functions.len(), buffers: vec![], applied: vec![], base: Some(bases[0]), copies: vec![], results: results.clone(), own, f, log: vec![] };
                    let mut mc = machine(&got);
                    let v = match mc.invoke(&mut h, f, args.clone()) { Ok(v) => v, Err(Stop::Trap(e)) => return Err(format!("calling function {f}: {e}")), Err(Stop::Unknown(_)) => continue };
                    if h.applied.len() != 1 { return Err(format!("the analysis is called {} times by function {f}", h.applied.len())) }
                    let ap = h.applied[0].clone();
                    let n = |k: usize| match ap[k] { Val::I32(v) => v, _ => -1 };
                    let want = (f as i32, args.len() as i32, results.len() as i32, a.code().is_none() as i32);
                    if (n(1), n(2), n(3), n(6)) != want { return Err(format!("function {f}: the analysis gets index, argument count, result count, import flag {:?}, expected {want:?}", (n(1), n(2), n(3), n(6)))) }
                    if v != results { return Err(format!("function {f} returns {v:?}, the analysis left {results:?}")) }
                    if own { if !h.copies.is_empty() { return Err(format!("function {f} runs the original by itself")) } slots.insert((n(0), f)); continue }
                    if h.copies.len() != 1 || h.copies[0].1 != args { return Err(format!("function {f} called with {args:?}: the original gets {:?}", h.copies)) }
                    let copy = h.copies[0].0;
                    if (copy as usize) < s.m.functions.len() { return Err(format!("function {f}: function {copy} runs in place of the saved copy")) }
                    let cp = got.function(copy.into());
                    if cp.type_ != a.type_ { return Err(format!("the copy of function {f} has type {:?}", cp.type_)) }
                    match (&a.code, &cp.code) {
                        (ImportOrPresent::Import(m1, n1), ImportOrPresent::Import(m2, n2)) => if (m1, n1) != (m2, n2) { return Err(format!("the copy of {m1}.{n1} is {m2}.{n2}")) },
                        (ImportOrPresent::Present(c1), ImportOrPresent::Present(c2)) => {
                            let t = |c: &Code| c.locals.iter().map(|l| l.type_).collect::<Vec<_>>();
                            if t(c1) != t(c2) { return Err(format!("the copy of function {f} has locals {:?}, the original {:?}", t(c2), t(c1))) }
                            hooked(&s, &order, &got, f, &c2.body).map_err(|e| format!("the saved copy: {e}"))?
                        }
                        _ => return Err(format!("the copy of function {f} is {:?}", cp.code)),
                    }
                    slots.insert((n(0), f));
                }
            }
            let sl: BTreeSet<i32> = slots.iter().map(|x| x.0).collect();
            if sl.len() != slots.len() { return Err(format!("functions share table slots: {slots:?}")) }
            Ok(())
        })();
        out.check(&d, res);
    }
}

// ---------------------------------------------------------------- C37
pub fn immutability(prop: &str, report: &dyn Fn(&Module) -> std::collections::HashSet<u32>, thorough: bool, r: &mut Rng, out: &mut Out) {
    for _ in 0..if thorough { 60_000 } else { 6_000 } {
        let mut m = random_module(r, false);
        // mostly harmless bodies, so that something is reported
        let n = m.functions.len();
        let chain = n > 6 && r.one_in(2);
        for f in 0..n {
            let tame = r.below(4);
            let keep = r.below(12);
            let Some(c) = m.functions[f].code_mut() else { continue };
            let mut k = 0;
            for w in &mut c.body {
                k += 1;
                if touches(w) && (tame > 0 || k != keep) && !(tame == 1 && k == keep) { *w = W::Nop }
                if let W::Call(g) = w { if r.one_in(2) { *g = (r.below(n) as u32).into() } else if r.one_in(2) { *w = W::Nop } }
            }
        }
        if chain {
            // the access to shared state is many calls away
            let (up, last) = (r.one_in(2), r.below(3));
            for f in 0..n {
                let g = if up { f + 1 } else { f.wrapping_sub(1) };
                let Some(c) = m.functions[f].code_mut() else { continue };
                for w in &mut c.body { if touches(w) || matches!(w, W::Call(_)) { *w = W::Nop } }
                let w = if g < n { W::Call((g as u32).into()) } else if last > 0 { W::Global(GlobalOp::Get, 0_u32.into()) } else { W::Nop };
                c.body.insert(0, w);
            }
        }
        let d = show_module(&m);
        let res = guard(|| report(&m)).and_then(|set| {
            if prop == "C44" {
                for f in 0..n as u32 {
                    let Some(c) = m.functions[f as usize].code() else { continue };
                    let alone = c.body.iter().all(|w| !touches(w) && if let W::Call(g) = w { g.to_u32() == f || set.contains(&g.to_u32()) } else { true });
                    if alone && !set.contains(&f) { return Err(format!("function {f} is not reported, though it touches nothing shared and calls at most itself and functions reported")) }
                }
                return Ok(());
            }
            for f in &set {
                let Some(c) = m.functions.get(*f as usize).and_then(|f| f.code()) else { return Err(format!("function {f} is reported, which is imported or absent")) };
                for w in &c.body {
                    if touches(w) { return Err(format!("function {f} is reported and contains {w:?}")) }
                    if let W::Call(g) = w { if g.to_u32() != *f && !set.contains(&g.to_u32()) { return Err(format!("function {f} is reported and calls {}, which is not", g.to_u32())) } }
                }
            }
            Ok(())
        });
        out.check(&d, res);
    }
}
fn touches(w: &W) -> bool {
    matches!(w, W::Global(..) | W::TableGet(_) | W::TableSet(_) | W::TableSize(_) | W::TableGrow(_) | W::TableFill(_) | W::TableCopy(..) | W::TableInit(..) | W::ElemDrop(_) | W::Load(..) | W::Store(..) | W::MemorySize(_) | W::MemoryGrow(_) | W::MemoryFill | W::MemoryCopy | W::MemoryInit(_) | W::DataDrop(_) | W::CallIndirect(..))
}

// ---------------------------------------------------------------- C43
/// the groups an analysis can ask for, and the hooks of each
pub const GROUPS: [&str; 28] = ["GenericApply", "CallPre", "CallPost", "CallIndirectPre", "CallIndirectPost", "IfThen", "IfThenPost", "IfThenElse", "IfThenElsePost", "Branch", "BranchIf", "BranchTable", "Select", "Unary", "Binary", "Drop", "Return", "Const", "Local", "Global", "Store", "Load", "MemorySize", "MemoryGrow", "BlockPre", "BlockPost", "LoopPre", "LoopPost"];
fn group_of(hook: &str) -> &str {
    match hook {
        "Pre" => "CallPre",
        "Post" => "CallPost",
        "IndirectPre" => "CallIndirectPre",
        "IndirectPost" => "CallIndirectPost",
        "Br" => "Branch",
        "BrIf" => "BranchIf",
        "BrTable" => "BranchTable",
        h => ["Unary", "Binary", "Const", "Local", "Global"].into_iter().find(|p| h.starts_with(p)).or(match h.len() { 7 if h.ends_with("Load") => Some("Load"), 8 if h.ends_with("Store") => Some("Store"), _ => None }).unwrap_or(h),
    }
}
/// the interface provides the hooks of the groups asked for, each as declared, and no others
pub fn provides(got: &AnalysisInterface, asked: &[&str]) -> Result<(), String> {
    for h in &HOOKS {
        let g = group_of(h.name);
        match ((h.get)(got), asked.contains(&g)) {
            (None, true) => return Err(format!("the hook {} of the group {g} is not provided", h.field)),
            (Some(_), false) => return Err(format!("the hook {} is provided, its group {g} was not asked for", h.field)),
            (Some(e), true) => { let w = (h.interface)(); if e.name != w.name || e.args != w.args || e.results != w.results { return Err(format!("the hook {} is provided as {e:?}, expected {w:?}", h.field)) } }
            (None, false) => {}
        }
    }
    match (&got.generic_interface, asked.contains(&"GenericApply")) {
        (None, true) => Err("the hook around functions is not provided".into()),
        (Some(_), false) => Err("the hook around functions is provided and was not asked for".into()),
        (Some(e), true) => { let w = AnalysisInterface::interface_generic_apply(); if e.0.name != w.0.name || e.0.args != w.0.args || e.0.results != w.0.results || e.1.name != w.1.name || e.1.args != w.1.args || e.1.results != w.1.results { Err(format!("the hook around functions is provided as {e:?}")) } else { Ok(()) } }
        _ => Ok(()),
    }
}

pub fn run(prop: &str, thorough: bool, seed: u64, part: u64) -> Out {
    let mut out = Out::default();
    let mut r = Rng(0x9E3779B97F4A7C15 ^ (seed << 20) ^ (part.wrapping_mul(0xD1342543DE82EF95)) ^ 11);
    for _ in 0..8 { r.next(); }
    match prop {
        "C20" | "C21" => nesting(prop, thorough, &mut r, &mut out),
        "C22" | "C23" | "C25" | "C26" | "C27" | "C28" | "C29" => hook_cases(prop, thorough, &mut r, &mut out),
        "C31" => branch_tables(thorough, &mut r, &mut out),
        "C32" => memory_helpers(thorough, &mut r, &mut out),
        "C33" => interfaces(&mut r, &mut out),
        "C34" => support_names(thorough, &mut r, &mut out),
        "C38" => merging(thorough, &mut r, &mut out),
        "C40" => wiring(thorough, &mut r, &mut out),
        "C41" => interception(thorough, &mut r, &mut out),
        "C42" => selection(thorough, &mut r, &mut out),
        _ => {}
    }
    out
}
