//! C45: the generated Rust support library, compiled with a stand-in allocator and run.
//! replay-support C45 TIER SEED OUT
mod compile;
#[allow(dead_code)]
#[path = "rust.rs"]
mod rust;
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use wastrumentation::wasm_constructs::{Signature, SignatureSide, WasmType};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) }
    fn below(&mut self, n: usize) -> usize { (self.next() >> 11) as usize % n.max(1) }
    fn one_in(&mut self, n: usize) -> bool { self.below(n) == 0 }
}
type Sig = (Vec<usize>, Vec<usize>);
const TY: [&str; 4] = ["i32", "f32", "i64", "f64"];
fn ty(i: usize) -> WasmType { match i { 0 => WasmType::I32, 1 => WasmType::F32, 2 => WasmType::I64, _ => WasmType::F64 } }
fn real(s: &Sig) -> Signature { Signature { return_types: s.0.iter().map(|t| ty(*t)).collect(), argument_types: s.1.iter().map(|t| ty(*t)).collect() } }
fn show(s: &Sig) -> String { let f = |v: &Vec<usize>| v.iter().map(|t| TY[*t]).collect::<Vec<_>>().join(" "); format!("({}) -> ({})", f(&s.1), f(&s.0)) }

/// lengths that the current source mentions and the committed one did not
fn lengths() -> Vec<usize> {
    let Ok(t) = std::env::var("VERIF_DICT").map_err(|_| ()).and_then(|p| std::fs::read_to_string(p).map_err(|_| ())) else { return vec![] };
    t.lines().skip_while(|l| *l != "new").take_while(|l| *l != "old").filter_map(|l| l.strip_prefix("i ")?.parse::<usize>().ok()).filter(|n| *n < 120).flat_map(|n| [n.saturating_sub(1), n, n + 1]).collect()
}
fn signatures(r: &mut Rng, ls: &[usize]) -> Vec<Sig> {
    let mut out: Vec<Sig> = vec![];
    let n = 2 + r.below(9);
    let len = |r: &mut Rng| if !ls.is_empty() && r.one_in(2) { ls[r.below(ls.len())] } else { match r.below(12) { 0 | 1 => 0, 2 => 9 + r.below(4), 3 => 17 + r.below(8), _ => r.below(6) } };
    while out.len() < n {
        let s: Sig = match r.below(6) {
            // the same again, the same lengths with other types, arguments and results exchanged, one type moved over
            0 if !out.is_empty() => out[r.below(out.len())].clone(),
            1 if !out.is_empty() => { let s = out[r.below(out.len())].clone(); (s.0.iter().map(|_| r.below(4)).collect(), s.1.iter().map(|_| r.below(4)).collect()) }
            2 if !out.is_empty() => { let s = out[r.below(out.len())].clone(); (s.1, s.0) }
            3 if !out.is_empty() => { let mut s = out[r.below(out.len())].clone(); if let Some(t) = s.0.pop() { s.1.insert(0, t) } s }
            _ => { let (a, b) = (len(r), len(r)); let one = r.below(4); let same = r.one_in(4); let mut t = |n: usize| (0..n).map(|_| if same { one } else { r.below(4) }).collect::<Vec<_>>(); (t(a), t(b)) }
        };
        out.push(s);
    }
    if r.one_in(5) { out.insert(0, (vec![], vec![])) }
    out
}
/// a program that uses the functions of the library as the instrumentation does
fn driver(sigs: &[Sig]) -> String {
    let mut p = String::from(r#"#![allow(unused, non_snake_case)]
extern crate support; extern crate wee_alloc;
use std::sync::atomic::Ordering::Relaxed;
extern "C" { fn wastrumentation_stack_load_type(p: usize, o: usize) -> i32;
"#);
    for t in TY { writeln!(p, "fn wastrumentation_stack_load_{t}(p: usize, o: usize) -> {t}; fn wastrumentation_stack_store_{t}(p: usize, v: {t}, o: usize);").unwrap() }
    let mut seen = BTreeSet::new();
    let mut calls = String::new();
    let mut fns = String::new();
    for (k, s) in sigs.iter().enumerate() {
        calls.push_str(&format!("    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f{k}(&mut seed))).is_err() {{ println!(\"FAIL {k} it panics\"); }}\n"));
        let g = real(s);
        let (r, a) = (&s.0, &s.1);
        let l = |p: &str, v: &Vec<usize>| v.iter().enumerate().map(|(i, t)| format!(", {p}{i}: {}", TY[*t])).collect::<String>();
        let (al, fv, sr, at, ft) = (g.generate_allocate_values_buffer_name(), g.generate_free_values_buffer_name(), g.generate_store_rets_name(), g.generate_allocate_types_buffer_name(), g.generate_free_types_buffer_name());
        if seen.insert(s.clone()) {
            writeln!(p, "fn {al}({}) -> usize; fn {fv}(p: usize); fn {sr}(p: usize{}); fn {at}() -> usize; fn {ft}(p: usize);", l("a", a).trim_start_matches(", "), l("r", r)).unwrap();
            for (side, v) in [(SignatureSide::Argument, a), (SignatureSide::Return, r)] {
                for (i, t) in v.iter().enumerate() { writeln!(p, "fn {}(p: usize) -> {t}; fn {}(p: usize, v: {t});", g.generate_load_name(side.clone(), i), g.generate_store_name(side.clone(), i), t = TY[*t]).unwrap() }
            }
        }
        let name = |side: &SignatureSide, i: usize, load: bool| if load { g.generate_load_name(side.clone(), i) } else { g.generate_store_name(side.clone(), i) };
        let mut f = format!("fn f{k}(seed: &mut u64) {{ unsafe {{ for round in 0..12 {{\n");
        // two frames at once
        for fr in ["p", "q"] {
            for (x, v) in [("a", a), ("r", r)] { for (i, t) in v.iter().enumerate() { writeln!(f, "let mut {fr}{x}{i}: {} = V::draw(seed);", TY[*t]).unwrap() } }
            writeln!(f, "let {fr} = {al}({});", (0..a.len()).map(|i| format!("{fr}a{i}")).collect::<Vec<_>>().join(", ")).unwrap();
        }
        let read = |f: &mut String, fr: &str, x: &str, when: &str| {
            let (side, v, base) = if x == "a" { (SignatureSide::Argument, a, r.len()) } else { (SignatureSide::Return, r, 0) };
            for (i, t) in v.iter().enumerate() {
                let t = TY[*t];
                writeln!(f, "same({k}, \"{} {i} {when}\", {}({fr}), {fr}{x}{i}); same({k}, \"slot {} {when}\", wastrumentation_stack_load_{t}({fr}, {}), {fr}{x}{i});", if x == "a" { "argument" } else { "result" }, name(&side, i, true), base + i, base + i).unwrap();
            }
        };
        read(&mut f, "p", "a", "after allocation"); read(&mut f, "q", "a", "after allocation");
        for fr in ["p", "q"] {
            for (x, side, v) in [("r", SignatureSide::Return, r), ("a", SignatureSide::Argument, a)] {
                for (i, t) in v.iter().enumerate() {
                    let keep = if x == "a" { "*seed & 64 != 0" } else { "false" };
                    writeln!(f, "if !({keep}) {{ {fr}{x}{i} = V::draw(seed); {}({fr}, {fr}{x}{i}); }}", name(&side, i, false)).unwrap();
                    let _ = t;
                }
            }
        }
        for x in ["a", "r"] { read(&mut f, "p", x, "after stores"); read(&mut f, "q", x, "after stores"); }
        for (i, _) in r.iter().enumerate() { writeln!(f, "pr{i} = V::draw(seed);").unwrap() }
        writeln!(f, "{sr}(p{});", (0..r.len()).map(|i| format!(", pr{i}")).collect::<String>()).unwrap();
        for x in ["a", "r"] { read(&mut f, "p", x, "after storing all results"); read(&mut f, "q", x, "after storing all results of another frame"); }
        for (i, t) in r.iter().chain(a).enumerate() { let v = if i < r.len() { format!("pr{i}") } else { format!("pa{}", i - r.len()) }; writeln!(f, "{v} = V::draw(seed); wastrumentation_stack_store_{}(p, {v}, {i});", TY[*t]).unwrap() }
        for x in ["a", "r"] { read(&mut f, "p", x, "after a store by the analysis"); read(&mut f, "q", x, "after a store by the analysis to another frame"); }
        writeln!(f, "let t = {at}();").unwrap();
        for (i, t) in r.iter().chain(a).enumerate() { writeln!(f, "same({k}, \"type of slot {i}\", wastrumentation_stack_load_type(t, {i}), {t});").unwrap() }
        for x in ["a", "r"] { read(&mut f, "p", x, "beside a types buffer"); }
        writeln!(f, "{ft}(t); {fv}(q);").unwrap();
        for x in ["a", "r"] { read(&mut f, "p", x, "after freeing another frame"); }
        writeln!(f, "{fv}(p);\nlet bad = wee_alloc::BAD.swap(0, Relaxed); if bad & 2 != 0 {{ println!(\"FAIL {k} it writes behind its buffer\"); }} if bad & 1 != 0 {{ println!(\"FAIL {k} it gives a buffer back with another size than it asked for\"); }}\n}} }} }}").unwrap();
        fns.push_str(&f);
    }
    p.push_str("}\n");
    p.push_str(r#"
trait V: Copy { fn draw(s: &mut u64) -> Self; fn bits(self) -> u64; }
fn rnd(s: &mut u64) -> u64 { *s ^= *s << 13; *s ^= *s >> 7; *s ^= *s << 17; let x = s.wrapping_mul(0x2545F4914F6CDD1D); match x >> 60 { 0 => 0, 1 => u64::MAX, 2 => 0x8000000080000000, _ => x } }
impl V for i32 { fn draw(s: &mut u64) -> i32 { rnd(s) as i32 } fn bits(self) -> u64 { self as u32 as u64 } }
impl V for i64 { fn draw(s: &mut u64) -> i64 { rnd(s) as i64 } fn bits(self) -> u64 { self as u64 } }
impl V for f32 { fn draw(s: &mut u64) -> f32 { let x = f32::from_bits(rnd(s) as u32); if x.is_nan() { 1.5 } else { x } } fn bits(self) -> u64 { self.to_bits() as u64 } }
impl V for f64 { fn draw(s: &mut u64) -> f64 { let x = f64::from_bits(rnd(s)); if x.is_nan() { -2.5 } else { x } } fn bits(self) -> u64 { self.to_bits() } }
fn same<T: V>(k: usize, what: &str, got: T, want: T) { if got.bits() != want.bits() { println!("FAIL {k} {what}: {:#x} was put there, {:#x} is read", want.bits(), got.bits()); } }
"#);
    p.push_str(&fns);
    p.push_str(&format!("fn main() {{ std::panic::set_hook(Box::new(|_| {{}})); let mut seed: u64 = std::env::args().nth(1).unwrap().parse().unwrap();\n{calls}    println!(\"DONE\"); }}\n"));
    p
}
fn rustc(dir: &Path, args: &[&str]) -> Result<(), String> {
    let o = std::process::Command::new("rustc").args(["--edition", "2021", "-Copt-level=0", "-Cdebuginfo=0", "-Ccodegen-units=1", "--cap-lints=allow", "-L"]).arg(dir).args(args).arg("--out-dir").arg(dir).output().map_err(|e| format!("? {e}"))?;
    if o.status.success() { Ok(()) } else { Err(String::from_utf8_lossy(&o.stderr).chars().take(1500).collect()) }
}
#[derive(Default)]
struct Out { cases: u64, seen: BTreeSet<String>, fails: Vec<(String, String)> }
fn batch(dir: &Path, sigs: &[Sig], seed: u64, out: &mut Out) -> Result<(), String> {
    let all = sigs.iter().map(show).collect::<Vec<_>>().join("; ");
    let reals: Vec<Signature> = sigs.iter().map(real).collect();
    let text = match std::panic::catch_unwind(|| rust::generate_lib(&reals).1.0) { Ok(t) => t, Err(_) => { out.fails.push((format!("signatures {all}"), "generating the library panics".into())); return Ok(()) } };
    let w = |n: &str, t: &str| std::fs::write(dir.join(n), t).map_err(|e| e.to_string());
    w("support.rs", &text)?;
    w("driver.rs", &driver(sigs))?;
    let (lib, drv) = (dir.join("support.rs"), dir.join("driver.rs"));
    for s in sigs { out.cases += 1; out.seen.insert(show(s)); }
    if let Err(e) = rustc(dir, &["--crate-type=rlib", "--crate-name=support", "--cfg=test", lib.to_str().unwrap()]) {
        if e.starts_with('?') { return Err(e) }
        out.fails.push((format!("signatures {all}"), format!("the generated library does not compile: {e}"))); return Ok(())
    }
    if let Err(e) = rustc(dir, &["--crate-type=bin", "--crate-name=driver", drv.to_str().unwrap()]) {
        if e.starts_with('?') { return Err(e) }
        out.fails.push((format!("signatures {all}"), format!("a program that imports the functions under the names the instrumentation uses does not link: {e}"))); return Ok(())
    }
    let o = std::process::Command::new("timeout").arg("60").arg(dir.join("driver")).arg(seed.to_string()).output().map_err(|e| format!("? {e}"))?;
    let t = String::from_utf8_lossy(&o.stdout).to_string();
    let mut told = BTreeSet::new();
    for l in t.lines().filter_map(|l| l.strip_prefix("FAIL ")) {
        let (k, what) = l.split_once(' ').unwrap_or((l, ""));
        if told.insert(k.to_string()) { if let Some(s) = k.parse::<usize>().ok().and_then(|k| sigs.get(k)) { out.fails.push((format!("signature {} among {all}", show(s)), what.to_string())) } }
    }
    if !t.lines().any(|l| l == "DONE") && told.is_empty() { out.fails.push((format!("signatures {all}"), format!("the program that uses the library ends with {:?}", o.status))) }
    Ok(())
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (thorough, seed) = (a[2] == "thorough", a[3].parse::<u64>().unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    let top = PathBuf::from(std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| "/tmp/replay-support".into()));
    let _ = std::fs::remove_dir_all(&top);
    let ls = lengths();
    let outs: Vec<Result<Out, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..6u64).map(|k| { let (top, ls) = (top.clone(), ls.clone()); s.spawn(move || {
            let dir = top.join(k.to_string());
            std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
            std::fs::write(dir.join("wee_alloc.rs"), include_str!("wee_alloc.rs")).map_err(|e| e.to_string())?;
            rustc(&dir, &["--crate-type=rlib", "--crate-name=wee_alloc", dir.join("wee_alloc.rs").to_str().unwrap()])?;
            let mut r = Rng(0x9E3779B97F4A7C15 ^ (seed << 20) ^ (k * 7919 + 3));
            for _ in 0..5 { r.next(); }
            let mut out = Out::default();
            for j in 0..if thorough { 120 } else { 8 } {
                let sigs = if j == 0 && k == 0 { vec![] } else { signatures(&mut r, &ls) };
                batch(&dir, &sigs, r.next() | 1, &mut out)?;
                if out.fails.len() > 3 { break }
            }
            Ok(out)
        }) }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let _ = std::fs::remove_dir_all(&top);
    let outs: Vec<Out> = match outs.into_iter().collect() { Ok(o) => o, Err(e) => { eprintln!("{e}"); std::process::exit(3) } };
    let esc = |s: &str| { let mut o = String::from("\""); for c in s.chars().take(2000) { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o };
    let seen: BTreeSet<&String> = outs.iter().flat_map(|o| &o.seen).collect();
    let fails: Vec<String> = outs.iter().flat_map(|o| &o.fails).take(8).map(|(i, w)| format!("{{\"input\":{},\"what\":{}}}", esc(i), esc(w))).collect();
    let samples: Vec<String> = seen.iter().take(5).map(|s| esc(s)).collect();
    std::fs::write(&a[4], format!("{{\"evaluations\":{},\"distinct_nontrivial\":{},\"samples\":[{}],\"failures\":[{}],\"known\":[]}}\n", outs.iter().map(|o| o.cases).sum::<u64>(), seen.len(), samples.join(","), fails.join(","))).unwrap();
}
