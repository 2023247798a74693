use crate::norm;
use std::collections::BTreeMap;

#[derive(Default, Clone)]
pub struct FnSpec {
    pub ret: Option<String>,
    pub contract: String,
    pub attr: String,
    pub start: String,
    pub end: String,
    pub loops: BTreeMap<usize, String>,
    pub lstart: BTreeMap<usize, String>,
    pub lbefore: BTreeMap<usize, String>,
    pub lend: BTreeMap<usize, String>,
    pub lafter: BTreeMap<usize, String>,
    pub closures: BTreeMap<usize, String>,
    pub cafter: BTreeMap<usize, String>,
    pub after: BTreeMap<String, String>,
    pub panics: Option<String>,
    pub cases: Vec<String>,
    pub lcases: Option<(usize, Vec<String>)>,
    pub external: bool,
    pub unimplemented_drop: bool,
}

#[derive(Default)]
pub struct Unit {
    pub modules: Vec<(String, String)>,
    pub fns: BTreeMap<String, FnSpec>,
    pub drops: Vec<String>,
    pub only: BTreeMap<String, Vec<String>>,
    pub raws: Vec<(String, String)>,
    pub rawimpl: BTreeMap<String, String>,
    pub derives: BTreeMap<String, Vec<String>>,
    pub fromspecs: BTreeMap<String, String>,
    pub pathmap: BTreeMap<String, String>,
    pub noinline: Vec<String>,
    pub externs: Vec<String>,
    pub opts: Vec<String>,
}

impl Unit {
    pub fn read(file: &str, defs: &BTreeMap<String, String>) -> Unit {
        let mut u = Unit::default();
        u.load(file, defs);
        u
    }
    fn load(&mut self, file: &str, defs: &BTreeMap<String, String>) {
        let mut text = std::fs::read_to_string(file).unwrap_or_else(|e| crate::die("ERROR", &format!("{file}: {e}")));
        for (k, v) in defs {
            text = text.replace(&format!("${{{k}}}"), v);
        }
        let dir = std::path::Path::new(file).parent().unwrap().to_path_buf();
        let mut cur: (String, String) = (String::new(), String::new()); // (directive, arg)
        let mut sub: (String, String) = (String::new(), String::new());
        let mut buf = String::new();
        let mut chunks: Vec<((String, String), (String, String), String)> = vec![];
        for line in text.lines() {
            if let Some(rest) = line.strip_prefix("@@") {
                chunks.push((cur.clone(), sub.clone(), std::mem::take(&mut buf)));
                let (d, a) = rest.split_once(' ').unwrap_or((rest, ""));
                cur = (d.to_string(), a.trim().to_string());
                sub = Default::default();
            } else if line.starts_with('@') {
                chunks.push((cur.clone(), sub.clone(), std::mem::take(&mut buf)));
                let rest = &line[1..];
                let (d, a) = rest.split_once(' ').unwrap_or((rest, ""));
                sub = (d.to_string(), a.trim().to_string());
            } else {
                buf.push_str(line);
                buf.push('\n');
            }
        }
        chunks.push((cur, sub, buf));
        for ((d, a), (s, sa), body) in chunks {
            match d.as_str() {
                "" | "#" => {}
                "include" => {
                    if s.is_empty() {
                        self.load(dir.join(&a).to_str().unwrap(), defs)
                    }
                }
                "module" => {
                    let (m, f) = a.split_once(' ').unwrap();
                    self.modules.push((m.to_string(), f.trim().to_string()));
                }
                "drop" => self.drops.push(norm(&a)),
                "extern" => self.externs.push(a.clone()),
                "opt" => self.opts.push(a.clone()),
                "noinline" => self.noinline.push(norm(&a)),
                "only" => {
                    let (m, l) = a.split_once(' ').unwrap_or((a.as_str(), ""));
                    self.only.entry(m.to_string()).or_default().extend(
                        l.split(';').chain(body.split('\n')).map(norm).filter(|x| !x.is_empty()).map(|x| format!("{m}::{x}")),
                    );
                }
                "map" => {
                    let (m, l) = a.split_once(' ').unwrap();
                    self.pathmap.insert(m.to_string(), l.trim().to_string());
                }
                "raw" => self.raws.push((a.clone(), body)),
                "rawimpl" => {
                    self.rawimpl.insert(norm(&a), body);
                }
                "derive" => {
                    let (m, l) = a.split_once(' ').unwrap_or((a.as_str(), ""));
                    self.derives.insert(norm(m), l.split(',').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect());
                }
                "from" => {
                    self.fromspecs.insert(norm(&a), body);
                }
                "fn" => {
                    let f = self.fns.entry(norm(&a)).or_default();
                    let n = || sa.parse::<usize>().unwrap_or_else(|_| crate::die("ERROR", &format!("bad index in {a} @{s}")));
                    match s.as_str() {
                        "" => {}
                        "ret" => f.ret = Some(sa.clone()),
                        "contract" => f.contract.push_str(&body),
                        "attr" => f.attr.push_str(&body),
                        "start" => f.start.push_str(&body),
                        "end" => f.end.push_str(&body),
                        "panics" => f.panics = Some(sa.clone()),
                        "cases" => f.cases = body.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect(),
                        "lcases" => f.lcases = Some((n(), body.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect())),
                        "external" => f.external = true,
                        "drop" => f.unimplemented_drop = true,
                        "after" => { f.after.insert(sa.clone(), body); }
                        "loop" => { f.loops.insert(n(), body); }
                        "lbefore" => { f.lbefore.insert(n(), body); }
                        "lstart" => { f.lstart.insert(n(), body); }
                        "lend" => { f.lend.insert(n(), body); }
                        "lafter" => { f.lafter.insert(n(), body); }
                        "closure" => { f.closures.insert(n(), body); }
                        "cafter" => { f.cafter.insert(n(), body); }
                        o => crate::die("ERROR", &format!("unknown @{o}")),
                    }
                }
                o => crate::die("ERROR", &format!("unknown @@{o}")),
            }
        }
    }
}
