//! replay-core PROP quick|thorough SEED OUT
use std::collections::BTreeMap;
use std::io::Write;
use wastrumentation::verif_replay as v;
use wastrumentation_rs_stdlib::Deserialize;
fn decode(fam: &str, c: i32) -> Result<String, String> {
    use wastrumentation_rs_stdlib as s;
    v::guard(|| match fam {
        "unary" => format!("{:?}", s::UnaryOperator::from(c)),
        "binary" => format!("{:?}", s::BinaryOperator::from(c)),
        "load" => format!("{:?}", s::LoadOperation::deserialize(&c)),
        _ => format!("{:?}", s::StoreOperation::deserialize(&c)),
    })
}
macro_rules! hooks { ($m:ident: $($n:ident)*) => { [$(($m::Hook::$n, stringify!($n))),*] } }
macro_rules! front {
    ($f:ident, $m:ident, $spec:ident, $src:ident) => {
        /// the groups by name; the interface of a set of them, directly and by way of the analysis specification
        fn $f(asked: &[&str], tag: u64) -> Result<(), String> {
            use front::$m;
            let all = hooks!($m: GenericApply CallPre CallPost CallIndirectPre CallIndirectPost IfThen IfThenPost IfThenElse IfThenElsePost Branch BranchIf BranchTable Select Unary Binary Drop Return Const Local Global Store Load MemorySize MemoryGrow BlockPre BlockPost LoopPre LoopPost);
            let set: std::collections::HashSet<$m::Hook> = all.iter().filter(|(_, n)| asked.contains(n)).map(|(h, _)| *h).collect();
            v::provides(&$m::interface_from(&set), asked)?;
            let p = wastrumentation::analysis::ProcessedAnalysis::from($m::$spec { source: front::compile::options::$src(tag), hooks: set });
            v::provides(&p.analysis_interface, asked)?;
            if p.analysis_library.0 != tag { return Err("the library of the analysis is not the one given".into()) }
            let every = $m::Hook::all_hooks();
            for (h, n) in all { if !every.contains(&h) { return Err(format!("all_hooks leaves out {n}")) } }
            Ok(())
        }
    };
}
front!(rust_groups, rust, RustAnalysisSpec, RustSource);
front!(wasm_groups, webassembly, WasmAnalysisSpec, WebAssemblySource);
/// the WASP program that asks for some groups
fn wasp_groups(asked: &[(&'static str, &'static str)]) -> Result<(), String> {
    let mut text = String::from("(aspect ");
    for (_, a) in asked { text += a; text += "\n" }
    text += ")";
    let w = front::program(&text).map_err(|e| format!("?{e}"))?;
    let i = wastrumentation::analysis::AnalysisInterface::from(&front::assemblyscript::WaspRoot(w));
    v::provides(&i, &asked.iter().map(|(n, _)| *n).collect::<Vec<_>>())
}
const ADVICE: [(&str, &str); 14] = [
    ("GenericApply", "(advice apply (func WasmFunction) (args MutDynArgs) (results MutDynResults) >>>GUEST>>>1;<<<GUEST<<<)"),
    ("IfThen", "(advice if_then (cond Condition) >>>GUEST>>>1;<<<GUEST<<<)"),
    ("IfThenElse", "(advice if_then_else (cond Condition) >>>GUEST>>>1;<<<GUEST<<<)"),
    ("BranchIf", "(advice br_if (cond Condition) (label Label) >>>GUEST>>>1;<<<GUEST<<<)"),
    ("BranchTable", "(advice br_table (target Target) (default Default) >>>GUEST>>>1;<<<GUEST<<<)"),
    ("CallPre", "(advice call pre (f FunctionIndex) >>>GUEST>>>1;<<<GUEST<<<)"),
    ("CallPost", "(advice call post (f FunctionIndex) >>>GUEST>>>1;<<<GUEST<<<)"),
    ("CallIndirectPre", "(advice call_indirect pre (table FunctionTable) (index FunctionTableIndex) >>>GUEST>>>1;<<<GUEST<<<)"),
    ("CallIndirectPost", "(advice call_indirect post (table FunctionTable) >>>GUEST>>>1;<<<GUEST<<<)"),
    ("Select", "(advice select (cond Condition) >>>GUEST>>>1;<<<GUEST<<<)"),
    ("BlockPre", "(advice block pre >>>GUEST>>>1;<<<GUEST<<<)"),
    ("BlockPost", "(advice block post >>>GUEST>>>1;<<<GUEST<<<)"),
    ("LoopPre", "(advice loop pre >>>GUEST>>>1;<<<GUEST<<<)"),
    ("LoopPost", "(advice loop post >>>GUEST>>>1;<<<GUEST<<<)"),
];
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let (prop, thorough, seed) = (args[1].clone(), args[2] == "thorough", args[3].parse::<u64>().unwrap());
    let scratch = std::path::PathBuf::from(std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| "/tmp/replay-core".into()));
    if prop == "C38" {
        let _ = std::fs::remove_dir_all(&scratch);
        for d in ["bin", "tmp"] { std::fs::create_dir_all(scratch.join(d)).unwrap() }
        std::fs::copy(std::env::current_exe().unwrap().with_file_name("stub-merge"), scratch.join("bin/wasm-merge")).unwrap();
        std::env::set_var("PATH", format!("{}:/usr/local/bin:/usr/bin:/bin", scratch.join("bin").display()));
        std::env::set_var("TMPDIR", scratch.join("tmp"));
        std::env::remove_var("VX_PLAN");
    }
    let parts = if matches!(prop.as_str(), "C30" | "C33" | "C34") { 1 } else { 6 };
    let outs: Vec<v::Out> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..parts).map(|k| { let prop = prop.clone(); std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || match prop.as_str() {
            "C30" => {
                let mut out = v::Out::default();
                let mut seen: BTreeMap<(String, i32), String> = BTreeMap::new();
                for (fam, op, c) in v::codes() {
                    let d = format!("{fam} operation {op}");
                    out.note(&d);
                    let Some(c) = c else { out.fail(d, "no hook passes a code for it".into()); continue };
                    if c <= 0 { out.fail(d.clone(), format!("its code is {c}")) }
                    if let Some(o) = seen.insert((fam.to_string(), c), op.clone()) { out.fail(d.clone(), format!("shares the code {c} with {o}")) }
                    match decode(fam, c) { Ok(n) if n == op => {} Ok(n) => out.fail(d, format!("the analysis library decodes its code {c} as {n}")), Err(e) => out.fail(d, format!("the analysis library cannot decode {c}: {e}")) }
                }
                out
            }
            "C37" | "C44" => {
                let mut out = v::Out::default();
                let mut r = v::Rng(0x9E3779B97F4A7C15 ^ (seed << 20) ^ (k as u64 * 7919 + 3));
                v::immutability(&prop, &|m| wastrumentation_static_analysis::immutable_functions(m), thorough, &mut r, &mut out);
                out
            }
            "C43" => {
                let mut out = v::Out::default();
                let mut r = v::Rng(0x9E3779B97F4A7C15 ^ (seed << 20) ^ (k as u64 * 7919 + 3));
                for j in 0..if thorough { 20000 } else { 1500 } {
                    let n = v::GROUPS.len();
                    let asked: Vec<&str> = match j { 0 => vec![], 1 => v::GROUPS.to_vec(), j if j < 2 + n => vec![v::GROUPS[j - 2]], j if j < 2 + 2 * n => v::GROUPS.iter().enumerate().filter(|(i, _)| *i != j - 2 - n).map(|(_, g)| *g).collect(), _ => { let m = r.next() ^ r.next() << 7; let some = r.one_in(2); v::GROUPS.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1 && (!some || m >> (i + 29) & 1 == 1)).map(|(_, g)| *g).collect() } };
                    for (front, f) in [("Rust", rust_groups as fn(&[&str], u64) -> _), ("WebAssembly", wasm_groups)] {
                        let tag = r.next();
                        out.check(&format!("a {front} analysis asking for {asked:?}"), v::guard(|| f(&asked, tag)).and_then(|x| x));
                    }
                    let n = ADVICE.len();
                    let mut asked: Vec<_> = match j { 0 => vec![], j if j <= n => vec![ADVICE[j - 1]], _ => { let m = r.next(); ADVICE.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, g)| *g).collect() } };
                    for i in (1..asked.len()).rev() { let q = r.below(i + 1); asked.swap(i, q) }
                    if !asked.is_empty() && r.one_in(4) { let a = r.pick(&asked); asked.push(a) }
                    match v::guard(|| wasp_groups(&asked)).and_then(|x| x) { Err(e) if e.starts_with('?') => {} x => out.check(&format!("a WASP program with advice for {:?}", asked.iter().map(|(n, _)| *n).collect::<Vec<_>>()), x) }
                }
                out
            }
            p => v::run(p, thorough, seed, k as u64),
        }).unwrap() }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    if prop == "C38" { let _ = std::fs::remove_dir_all(&scratch); }
    let esc = |s: &str| {
        let mut o = String::from("\"");
        for c in s.chars() {
            match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
        }
        o.push('"');
        o
    };
    let mut f = std::fs::File::create(&args[4]).unwrap();
    let mut seen = std::collections::BTreeSet::new();
    for o in &outs { seen.extend(o.seen.iter().cloned()) }
    let fails: Vec<String> = outs.iter().flat_map(|o| o.fails.iter()).take(8).map(|(i, w)| format!("{{\"input\":{},\"what\":{}}}", esc(i), esc(w))).collect();
    let samples: Vec<String> = outs.iter().flat_map(|o| o.samples.iter()).take(5).map(|s| esc(s)).collect();
    writeln!(f, "{{\"evaluations\":{},\"distinct_nontrivial\":{},\"samples\":[{}],\"failures\":[{}],\"known\":[]}}", outs.iter().map(|o| o.cases).sum::<u64>(), seen.len(), samples.join(","), fails.join(",")).unwrap();
}
