//! replay-merge PROP quick|thorough SEED OUT : runs the real MergeOptions::merge against a stand-in for the
//! external merger (stub.rs) and compares with an oracle written from the text of C10, C11, C12
use std::collections::BTreeSet;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use wasm_merge::{error::Error, options as o, InputModule, MergeOptions};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
}

macro_rules! flags {
    ($($f:ident $t:ident $s:literal;)*) => {
        const FLAGS: &[&str] = &[$($s),*];
        fn set(m: &mut MergeOptions, on: u32) {
            let mut i = 0;
            $( if on >> i & 1 == 1 { m.$f = o::$t::Enable } else if on >> 31 & 1 == 1 { m.$f = o::$t::Disable } i += 1; )*
            let _ = i;
        }
    };
}
flags! {
    no_validation NoValidate "--no-validation";
    rename_export_conflicts RenameExportConflicts "--rename-export-conflicts";
    sign_ext SignExt "--enable-sign-ext";
    threads Threads "--enable-threads";
    mutable_globals MutableGlobals "--enable-mutable-globals";
    nontrapping_float_to_int NontrappingFloatToInt "--enable-nontrapping-float-to-int";
    simd Simd "--enable-simd";
    bulk_memory BulkMemory "--enable-bulk-memory";
    bulk_memory_opt BulkMemoryOpt "--enable-bulk-memory-opt";
    call_indirect_overlong CallIndirectOverlong "--enable-call-indirect-overlong";
    exception_handling ExceptionHandling "--enable-exception-handling";
    tail_call TailCall "--enable-tail-call";
    reference_types ReferenceTypes "--enable-reference-types";
    multivalue Multivalue "--enable-multivalue";
    gc Gc "--enable-gc";
    memory64 Memory64 "--enable-memory64";
    relaxed_simd RelaxedSimd "--enable-relaxed-simd";
    extended_const ExtendedConst "--enable-extended-const";
    strings Strings "--enable-strings";
    multimemory Multimemory "--enable-multimemory";
    typed_continuations TypedContinuations "--enable-typed-continuations";
    shared_everything SharedEverything "--enable-shared-everything";
    fp16 Fp16 "--enable-fp16";
}

type Res = Result<Result<Vec<u8>, Error>, String>;
fn run(m: &MergeOptions) -> Res {
    catch_unwind(AssertUnwindSafe(|| m.merge())).map_err(|e| format!("panic: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()))
}
fn short(b: &[u8]) -> String {
    if b.len() > 40 { format!("{:?}.. ({} bytes)", &b[..40], b.len()) } else { format!("{b:?}") }
}
fn show(r: &Res) -> String {
    match r {
        Err(p) => p.clone(),
        Ok(Err(e)) => { let s = format!("Err({e:?})"); s.chars().take(300).collect() }
        Ok(Ok(b)) => format!("Ok({})", short(b)),
    }
}
/// what the stand-in recorded: (argument, contents of the file it names)
fn record(b: &[u8]) -> Option<Vec<(String, Option<Vec<u8>>)>> {
    let mut i = 0;
    let mut get = || -> Option<Vec<u8>> {
        let n = u32::from_le_bytes(b.get(i..i + 4)?.try_into().ok()?) as usize;
        let v = b.get(i + 4..i + 4 + n)?.to_vec();
        i += 4 + n;
        Some(v)
    };
    let mut out = vec![];
    while let Some(a) = get() {
        let k = get()?;
        let f = if k == b"f" { Some(get()?) } else { None };
        out.push((String::from_utf8(a).ok()?, f));
    }
    Some(out)
}
type Files = Vec<(Option<Vec<u8>>, String)>;
fn split(rec: Vec<(String, Option<Vec<u8>>)>) -> (Vec<String>, Files, usize, bool) {
    let (mut flags, mut pos, mut outs) = (vec![], vec![], 0);
    let mut it = rec.into_iter();
    while let Some((a, f)) = it.next() {
        if a == "-o" || a == "--output" { it.next(); outs += 1; }
        else if a.starts_with("--") { flags.push(a); }
        else { pos.push((a, f)); }
    }
    let odd = pos.len() % 2 == 1;
    let files = pos.chunks(2).filter(|c| c.len() == 2).map(|c| (c[0].1.clone(), c[1].0.clone())).collect();
    (flags, files, outs, odd)
}

struct Out { prop: String, cases: u64, seen: BTreeSet<u64>, samples: Vec<String>, fails: Vec<(String, String)> }
impl Out {
    fn note(&mut self, s: &str) {
        self.cases += 1;
        let h = s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
        if self.seen.insert(h) && self.samples.len() < 5 && self.cases % 17 == 3 { self.samples.push(s.chars().take(300).collect()); }
    }
    fn fail(&mut self, i: String, w: String) { if self.fails.len() < 8 { self.fails.push((i.chars().take(1500).collect(), w.chars().take(1500).collect())); } }
}

#[derive(Clone)]
struct Conf { primary: Option<(Vec<u8>, String)>, mods: Vec<(Vec<u8>, String)>, on: u32 }
impl Conf {
    fn show(&self) -> String {
        let m = |x: &(Vec<u8>, String)| format!("{}={}", x.1, short(&x.0));
        format!("primary {} modules [{}] switches {:?}", self.primary.as_ref().map(m).unwrap_or("none".into()), self.mods.iter().map(m).collect::<Vec<_>>().join(", "), (0..23).filter(|i| self.on >> i & 1 == 1).map(|i| FLAGS[i]).collect::<Vec<_>>())
    }
    fn merge(&self) -> Res {
        fn im(x: &(Vec<u8>, String)) -> InputModule<'_> { InputModule { module: &x.0, namespace: x.1.clone() } }
        let mut m = MergeOptions { primary: self.primary.as_ref().map(im), input_modules: self.mods.iter().map(im).collect(), ..Default::default() };
        set(&mut m, self.on);
        run(&m)
    }
    fn wanted(&self) -> Files {
        self.primary.iter().chain(self.mods.iter()).map(|x| (Some(x.0.clone()), x.1.clone())).collect()
    }
    fn check(&self, prop: &str, r: &Res) -> Option<String> {
        let Ok(Ok(b)) = r else { return Some(format!("the merger succeeded but merging gave {}", show(r))) };
        let Some(rec) = record(b) else { return Some(format!("the bytes returned are not the file the merger wrote: {}", short(b))) };
        let args = rec.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(" ");
        let (flags, files, outs, odd) = split(rec);
        if prop == "C10" {
            let want: BTreeSet<&str> = (0..23).filter(|i| self.on >> i & 1 == 1).map(|i| FLAGS[i]).collect();
            let got: BTreeSet<&str> = flags.iter().map(|s| s.as_str()).collect();
            return (want != got || flags.len() != got.len()).then(|| format!("flags given {flags:?}, enabled {want:?}"));
        }
        if outs != 1 || odd || files.iter().any(|f| f.0.is_none()) {
            return Some(format!("command line: {args}"));
        }
        let want = self.wanted();
        (want != files).then(|| format!("the merger got {:?}, expected {:?}", files.iter().map(|f| (&f.1, short(f.0.as_ref().unwrap()))).collect::<Vec<_>>(), want.iter().map(|f| (&f.1, short(f.0.as_ref().unwrap()))).collect::<Vec<_>>()))
    }
}

/// literals of the current source (check.py's dictionary)
#[derive(Default)]
struct Dict { words: Vec<String>, bytes: Vec<Vec<u8>>, nums: Vec<usize> }
fn dict() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict::default();
        for l in std::fs::read_to_string(std::env::var("VERIF_DICT").unwrap_or_default()).unwrap_or_default().lines() {
            if let Some(n) = l.strip_prefix("i ").and_then(|n| n.parse::<usize>().ok()) { if !d.nums.contains(&n) { d.nums.push(n); } }
            let Some(h) = l.strip_prefix("s ") else { continue };
            let b: Vec<u8> = (0..h.len() / 2).filter_map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect();
            // namespaces are words the shell takes as they are
            let w: String = String::from_utf8_lossy(&b).chars().filter(|c| c.is_ascii_alphanumeric() || "_./:@%+,=-".contains(*c)).collect();
            if w.len() < 100 && w.chars().any(|c| c.is_ascii_alphanumeric()) {
                for w in [w.clone(), format!("{w}x"), format!("x{w}"), format!("{w}{w}"), w.to_uppercase()] {
                    let w = w.trim_start_matches(|c: char| !c.is_ascii_alphanumeric()).to_string();
                    if !d.words.contains(&w) { d.words.push(w); }
                }
            } else if !w.is_empty() && w.len() < 100 {
                for w in [format!("x{w}"), format!("a{w}b"), format!("x{w}{w}")] { d.words.push(w); }
            }
            for v in [b.clone(), [b.as_slice(), b"x"].concat(), [b"x", b.as_slice()].concat(), [b.as_slice(), b.as_slice()].concat()] { d.bytes.push(v); }
        }
        d.words.truncate(150);
        d.bytes.truncate(150);
        d
    })
}
fn word(r: &mut Rng) -> String {
    let d = &dict().words;
    if !d.is_empty() && r.below(4) == 0 { return d[r.below(d.len())].clone(); }
    const C: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_./:@%+,=-";
    const FIX: &[&str] = &["instrumented_input", "analysis", "env", "wastrumentation_stack", "a", "A", "é", "wasi_snapshot_preview1", "0", "o", "wasm-merge", "x.y", "path", "namespace"];
    if r.below(3) == 0 { return FIX[r.below(FIX.len())].into(); }
    let max = if r.below(10) == 0 { 200 } else { 8 };
    let n = 1 + r.below(max);
    (0..n).map(|i| loop { let c = C[r.below(C.len())] as char; if i > 0 || c.is_alphanumeric() { break c } }).collect()
}
fn bytes(r: &mut Rng) -> Vec<u8> {
    let d = &dict().bytes;
    if !d.is_empty() && r.below(4) == 0 { return d[r.below(d.len())].clone(); }
    let n = match r.below(12) { 0 => 0, 1 => 1, 2 => 8, 3 => 4096, 4 => 70_000, _ => r.below(60) };
    match r.below(4) { 0 => vec![r.next() as u8; n], 1 => (0..n).map(|i| b"\0asm\x01\0\0\0\r\n"[i % 10]).collect(), _ => (0..n).map(|_| r.next() as u8).collect() }
}
fn conf(r: &mut Rng, max: usize) -> Conf {
    let m = |r: &mut Rng| (bytes(r), word(r));
    let primary = if r.below(2) == 0 { Some(m(r)) } else { None };
    let n = r.below(max + 1);
    let mut mods: Vec<(Vec<u8>, String)> = (0..n).map(|_| m(r)).collect();
    if n > 1 && r.below(3) == 0 { let (i, j) = (r.below(n), r.below(n)); mods[i].0 = mods[j].0.clone(); }
    if n > 1 && r.below(3) == 0 { let (i, j) = (r.below(n), r.below(n)); mods[i].1 = mods[j].1.clone(); }
    if n > 0 && r.below(4) == 0 { if let Some(p) = &primary { mods[0] = p.clone(); } }
    let on = if r.below(3) == 0 { 0 } else { r.next() as u32 & 0x7f_ffff };
    Conf { primary, mods, on }
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let (prop, thorough, seed) = (args[1].clone(), args[2] == "thorough", args[3].parse::<u64>().unwrap());
    let mut r = Rng(0x9E3779B97F4A7C15 ^ (seed << 20) ^ 7);
    let scratch = std::path::PathBuf::from(std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| "/tmp/replay-merge".into()));
    let (bin, tmp) = (scratch.join("bin"), scratch.join("tmp"));
    let _ = std::fs::remove_dir_all(&bin);
    let _ = std::fs::remove_dir_all(&tmp);
    std::fs::create_dir_all(&bin).unwrap();
    std::fs::create_dir_all(&tmp).unwrap();
    let stub = std::env::current_exe().unwrap().with_file_name("stub-merge");
    std::fs::copy(&stub, bin.join("wasm-merge")).unwrap();
    let path = format!("{}:/usr/local/bin:/usr/bin:/bin", bin.display());
    std::env::set_var("PATH", &path);
    std::env::set_var("TMPDIR", &tmp);
    std::env::remove_var("VX_PLAN");
    let mut out = Out { prop: prop.clone(), cases: 0, seen: BTreeSet::new(), samples: vec![], fails: vec![] };

    let mut confs: Vec<Conf> = vec![];
    let m = |s: &str| (s.as_bytes().to_vec(), s.to_string());
    match prop.as_str() {
        "C10" => {
            let base = [Conf { primary: None, mods: vec![], on: 0 }, Conf { primary: Some(m("p")), mods: vec![m("a"), m("b")], on: 0 }];
            let mut sets: Vec<u32> = vec![0, 0x7f_ffff, 1 << 31, 1 << 31 | 0x7f_ffff];
            for i in 0..23 {
                sets.push(1 << i);
                sets.push(0x7f_ffff & !(1 << i));
                for j in 0..i { sets.push(1 << i | 1 << j); }
            }
            for _ in 0..if thorough { 200_000 } else { 15_000 } { sets.push(r.next() as u32 & 0x7f_ffff); }
            for (i, s) in sets.iter().enumerate() { let mut c = base[i % 2].clone(); c.on = *s; confs.push(c); }
            for _ in 0..200 { confs.push(conf(&mut r, 3)); }
        }
        "C11" => {
            let mut sizes: BTreeSet<usize> = BTreeSet::new();
            for &n in dict().nums.iter().filter(|n| **n > 1).take(10) { sizes.extend([n - 1, n, n + 1]); }
            for &n in &sizes {
                if n < 600 { confs.push(Conf { primary: Some(m("p")), mods: (0..n).map(|i| (vec![i as u8; i % 9], format!("n{i}"))).collect(), on: 0 }); }
                if n < 4000 { confs.push(Conf { primary: None, mods: vec![(vec![b'q'; 3], "n".repeat(n)), m("b")], on: 0 }); }
                if n < 20_000_000 { confs.push(Conf { primary: None, mods: vec![(vec![b'q'; n], "n".into()), m("b")], on: 0 }); }
            }
            for w in &dict().words {
                confs.push(Conf { primary: Some((b"x".to_vec(), w.clone())), mods: vec![m("b")], on: 0 });
                confs.push(Conf { primary: None, mods: vec![m("b"), (b"x".to_vec(), w.clone())], on: 0 });
            }
            for b in &dict().bytes {
                confs.push(Conf { primary: Some((b.clone(), "p".into())), mods: vec![m("b")], on: 0 });
                confs.push(Conf { primary: None, mods: vec![m("b"), (b.clone(), "q".into())], on: 0 });
            }
            for p in [None, Some(m("p"))] {
                for k in 0..5usize {
                    confs.push(Conf { primary: p.clone(), mods: (0..k).map(|i| m(&format!("m{i}"))).collect(), on: 0 });
                    confs.push(Conf { primary: p.clone(), mods: (0..k).map(|_| m("p")).collect(), on: 0x7f_ffff });
                }
                for k in [16usize, 17, 33, 64, 100, 257] { confs.push(Conf { primary: p.clone(), mods: (0..k).map(|i| (vec![i as u8; i], format!("n{i}"))).collect(), on: 0 }); }
                confs.push(Conf { primary: p.clone(), mods: vec![((0..3_000_000u32).map(|i| (i.wrapping_mul(i) >> 3) as u8).collect(), "big".into())], on: 0 });
            }
            for _ in 0..if thorough { 60_000 } else { 8_000 } { confs.push(conf(&mut r, 6)); }
        }
        _ => {}
    }
    // several at a time: merges of one process do not disturb each other
    let chunks = 8;
    let per = confs.len().div_ceil(chunks).max(1);
    let results: Vec<(Conf, Option<String>)> = std::thread::scope(|s| {
        let hs: Vec<_> = confs.chunks(per).map(|c| { let prop = prop.clone(); s.spawn(move || c.iter().map(|c| { let r = c.merge(); (c.clone(), c.check(&prop, &r)) }).collect::<Vec<_>>()) }).collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    for (c, bad) in results {
        out.note(&c.show());
        if let Some(b) = bad { out.fail(c.show(), b); }
    }
    if prop == "C11" {
        // the bytes returned are the file the merger wrote
        for i in 0..if thorough { 600 } else { 240 } {
            let b = bytes(&mut r);
            let b = if i == 0 { vec![] } else { b };
            let noise = ["", ";stdout=414243", ";stdout=00ff*40000"][i % 3];
            std::env::set_var("VX_PLAN", if b.len() > 2000 { format!("out=ab0d0a00*{}{noise}", b.len()) } else { format!("out={}{noise}", hex(&b)) });
            let want = if b.len() > 2000 { [0xab, 0x0d, 0x0a, 0].repeat(b.len()) } else { b };
            let c = conf(&mut r, 3);
            let got = c.merge();
            let d = format!("merger writes {}; {}", short(&want), c.show());
            out.note(&d);
            match &got { Ok(Ok(g)) if *g == want => {} _ => out.fail(d, format!("merging gave {}", show(&got))) }
        }
    }
    if prop == "C12" {
        let errs: Vec<(String, Vec<u8>)> = {
            let mut v: Vec<(String, Vec<u8>)> = vec![("".into(), vec![])];
            for t in ["e", "\n", " ", "\t\n", "Fatal: error parsing", "[parse exception: x (at 0:8)]\nFatal: y\n", "warning: no", "é✓", "0", "ok", "\0"] { v.push((format!("stderr={}", hex(t.as_bytes())), t.as_bytes().to_vec())); }
            for b in dict().bytes.iter().filter(|b| b.len() < 500 && !b.is_empty()).take(24) { v.push((format!("stderr={}", hex(b)), b.clone())); }
            v.push(("stderr=fffe41".into(), vec![0xff, 0xfe, 0x41]));
            v.push(("stderr=6c6f6e670a*30000".into(), b"long\n".repeat(30000)));
            v
        };
        let mut codes = vec![0, 1, 2, 3, 9, 42, 126, 127, 128, 129, 137, 254, 255];
        if thorough { codes = (0..256).collect(); }
        for &n in dict().nums.iter().filter(|n| **n < 256 && **n > 1).take(6) { codes.extend([n as i32 - 1, n as i32, (n as i32 + 1) % 256]); }
        let mut plans = vec![];
        for c in &codes {
            for (e, text) in &errs {
                for w in ["", ";nowrite=1", ";out=", ";out=00", ";out=0061736d01000000", ";stdout=6f6b"] {
                    plans.push((format!("exit={c};{e}{w}"), *c != 0 || !text.is_empty(), text.clone()));
                }
            }
        }
        for s in ["9", "15", "6", "2", "1", "8"] {
            for (e, text) in errs.iter().take(3) {
                for w in ["", ";nowrite=1", ";out=0061736d01000000"] {
                    plans.push((format!("signal={s};{e}{w}"), true, text.clone()));
                }
            }
        }
        for (i, (p, bad, text)) in plans.iter().enumerate() {
            std::env::set_var("VX_PLAN", p);
            let c = conf(&mut r, if i % 10 == 0 { 4 } else { 1 });
            let got = c.merge();
            let d = format!("merger plan [{}]; {}", p.chars().take(120).collect::<String>(), c.show());
            out.note(&d);
            match &got {
                Ok(Err(e)) if *bad => {
                    let t = String::from_utf8_lossy(text).to_string();
                    if !e.to_string().contains(&t) { out.fail(d, format!("the error does not carry what the merger printed: {}", show(&got))); }
                }
                Ok(Ok(_)) if !*bad => {}
                _ => out.fail(d, format!("merging gave {}", show(&got))),
            }
        }
        // the merger, or the shell, cannot be started
        std::env::remove_var("VX_PLAN");
        let c = Conf { primary: Some(m("p")), mods: vec![m("a")], on: 0 };
        for (what, p) in [("no wasm-merge on the path", "/usr/bin:/bin".to_string()), ("no program on the path", tmp.display().to_string())] {
            std::env::set_var("PATH", &p);
            let got = c.merge();
            out.note(what);
            if !matches!(got, Ok(Err(_))) { out.fail(what.into(), format!("merging gave {}", show(&got))); }
            std::env::set_var("PATH", &path);
        }
        let plain = bin.join("wasm-merge");
        let _ = std::fs::remove_file(&plain);
        std::fs::write(&plain, "not executable").unwrap();
        let got = c.merge();
        out.note("wasm-merge is not executable");
        if !matches!(got, Ok(Err(_))) { out.fail("wasm-merge is not executable".into(), format!("merging gave {}", show(&got))); }
        std::env::set_var("TMPDIR", scratch.join("absent"));
        let got = c.merge();
        out.note("no temporary directory");
        if !matches!(got, Ok(Err(_))) { out.fail("no temporary directory".into(), format!("merging gave {}", show(&got))); }
    }
    let _ = std::fs::remove_dir_all(&scratch);
    let esc = |s: &str| {
        let mut o = String::from("\"");
        for c in s.chars() {
            match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
        }
        o.push('"');
        o
    };
    let _ = &out.prop;
    let mut f = std::fs::File::create(&args[4]).unwrap();
    let fails: Vec<String> = out.fails.iter().map(|(i, w)| format!("{{\"input\":{},\"what\":{}}}", esc(i), esc(w))).collect();
    let samples: Vec<String> = out.samples.iter().map(|s| esc(s)).collect();
    writeln!(f, "{{\"evaluations\":{},\"distinct_nontrivial\":{},\"samples\":[{}],\"failures\":[{}],\"known\":[]}}", out.cases, out.seen.len(), samples.join(","), fails.join(",")).unwrap();
}
