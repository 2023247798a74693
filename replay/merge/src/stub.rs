//! stands in for binaryen's wasm-merge: records what it was given, or acts out a planned fault
use std::io::Write;
use std::os::unix::ffi::OsStrExt;
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn big(s: &str) -> Vec<u8> {
    // "<hex>" or "<hex>*N"
    match s.split_once('*') {
        Some((h, n)) => unhex(h).repeat(n.parse().unwrap()),
        None => unhex(s),
    }
}
fn main() {
    let args: Vec<_> = std::env::args_os().skip(1).collect();
    let mut out = None;
    for (i, a) in args.iter().enumerate() {
        if (a == "-o" || a == "--output") && i + 1 < args.len() {
            out = Some(args[i + 1].clone());
        }
    }
    let plan = std::env::var("VX_PLAN").unwrap_or_default();
    let mut code = 0;
    let mut signal = 0;
    let mut data: Option<Vec<u8>> = None;
    let mut write = true;
    for p in plan.split(';').filter(|p| !p.is_empty()) {
        let (k, v) = p.split_once('=').unwrap();
        match k {
            "exit" => code = v.parse().unwrap(),
            "signal" => signal = v.parse().unwrap(),
            "stderr" => { let b = big(v); let _ = std::io::stderr().write_all(&b); }
            "stdout" => { let b = big(v); let _ = std::io::stdout().write_all(&b); let _ = std::io::stdout().flush(); }
            "out" => data = Some(big(v)),
            "nowrite" => write = false,
            _ => panic!(),
        }
    }
    let data = data.unwrap_or_else(|| {
        let mut d = vec![];
        let mut put = |b: &[u8]| {
            d.extend((b.len() as u32).to_le_bytes());
            d.extend(b);
        };
        for a in &args {
            put(a.as_bytes());
            let f = std::path::Path::new(a);
            match std::fs::read(f) {
                Ok(b) if Some(a) != out.as_ref() => { put(b"f"); put(&b) }
                _ => put(b"-"),
            }
        }
        d
    });
    if write {
        if let Some(o) = out {
            std::fs::write(o, data).unwrap();
        }
    }
    if signal != 0 {
        // an inherited "ignore" must not save it: default action first
        unsafe {
            c_signal(signal, 0);
            c_raise(signal);
        }
        std::process::abort();
    }
    std::process::exit(code);
}

extern "C" {
    #[link_name = "signal"]
    fn c_signal(sig: i32, handler: usize) -> usize;
    #[link_name = "raise"]
    fn c_raise(sig: i32) -> i32;
}
