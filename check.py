#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough   -- decides one property on /repo's working tree.

1. vx extracts the functions under contract from /repo mechanically and puts the
   contracts of units/<unit>.vu around them; Verus discharges every obligation.
2. The replay crate runs the real code on generated inputs against an oracle written
   from the property text: it supplies the failing input for a failed obligation, and is
   the (bounded, labelled) stand-in when the current source cannot be put under contract.
"""
import concurrent.futures, fcntl, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")
sys.path.insert(0, os.path.join(VERIF, "lib"))
import props  # noqa: E402

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
ENV.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
for k in ("CARGO_TARGET_DIR", "RUSTFLAGS"):
    ENV.pop(k, None)


def say(*a):
    print(*a, flush=True)


def run(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return -9, (e.stdout or b"").decode("utf-8", "replace"), "timed out after %ss" % timeout


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def cargo_build(crate, target, release=False, timeout=600):
    """returns (path of target dir, error text or None)"""
    td = os.path.join(BUILD, target)
    with Lock("cargo-" + target):
        rc, o, e = run(["cargo", "build", "--offline", "--quiet", "--target-dir", td], timeout, cwd=crate, env=ENV)
    return td, (None if rc == 0 else (o + e)[-6000:])


def build_vx():
    td, err = cargo_build(os.path.join(VERIF, "vx"), "vx")
    if err:
        raise SystemExit("vx does not build:\n" + err)
    return os.path.join(td, "debug", "vx")


TAG = re.compile(r"//((?:\s*\[C\d+\??\])+)\s*$")


def tags_of(text):
    """[C25]: the clause states this property; [C23?]: the property follows from the clause, which says more"""
    m = TAG.search(text)
    return set(re.findall(r"C\d+\??", m.group(1))) if m else set()


VERIF_MSG = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed",
             "possible arithmetic", "decreases not satisfied", "loop ensures not satisfied", "ensures not satisfied",
             "possible division by zero", "possible bit shift", "recommendation not met", "requires not satisfied",
             "constructed value may fail to meet its declared type invariant", "index out of bounds", "unwind",
             "assert_by_contradiction", "unable to prove", "not satisfied", "could not prove", "cannot prove", "overflow", "may fail", "might", "loop invariant not", "failed")
INCONCLUSIVE_MSG = ("Resource limit", "rlimit", "timed out", "could not verify")


def renamed(name, clash):
    """the unit files with specification functions renamed whose names the source has since taken"""
    if not clash:
        return os.path.join(VERIF, "units")
    d = os.path.join(BUILD, "units_" + name)
    os.makedirs(d, exist_ok=True)
    pat = re.compile(r"(?<![\w.])(" + "|".join(map(re.escape, sorted(clash))) + r")\b")
    for f in os.listdir(os.path.join(VERIF, "units")):
        if f.endswith(".vu"):
            with open(os.path.join(VERIF, "units", f)) as i, open(os.path.join(d, f), "w") as o:
                o.write(pat.sub(r"\1_vs", i.read()))
    return d


def extract(vx, unit, defines, out, probe=False, assume=(), units=os.path.join(VERIF, "units")):
    cmd = [vx, "--unit", os.path.join(units, unit + ".vu"), "--repo", REPO, "--out", out]
    for k, v in defines.items():
        cmd += ["--define", f"{k}={v}"]
    if probe:
        cmd.append("--probe")
    for k in assume:
        cmd += ["--assume", k]
    rc, o, e = run(cmd, 120)
    return rc, o, e


def verus(path, extra=(), timeout=700, errors=20):
    cmd = ["verus", "--triggers-mode", "silent", "--multiple-errors", str(errors), "--output-json", "--time-expanded",
           "--error-format=json", *extra, path]
    rc, o, e = run(cmd, timeout, env=dict(os.environ))
    try:
        js = json.loads(o[o.index("{"):])
    except ValueError:
        js = {}
    diags = []
    for l in e.splitlines():
        if l.startswith("{"):
            try:
                d = json.loads(l)
                if d.get("level") == "error":
                    diags.append(d)
            except ValueError:
                pass
    return rc, js, diags, e, " ".join(cmd)


class Gen:
    """the generated file: which lines belong to which function / contract"""

    def __init__(self, path):
        self.lines = open(path, encoding="utf-8").read().split("\n")
        self.fn_at = {}
        self.contract_tags = {}
        self.clauses = {}
        cur = None
        con = None
        for i, l in enumerate(self.lines, 1):
            s = l.strip()
            if s.startswith("//@@fn "):
                cur = s[7:]
            if s.startswith("//@@contract ") or s.startswith("//@@loop ") or s.startswith("//@@closure "):
                con = cur
            if cur:
                self.fn_at[i] = cur
                t = tags_of(l)
                if t:
                    self.contract_tags.setdefault(cur, set()).update(t)
                    self.clauses.setdefault(cur, []).append((i, t, s))
            if s.startswith("//@@endcontract") or s.startswith("//@@endloop") or s.startswith("//@@endclosure"):
                con = None
            if s.startswith("//@@endfn "):
                cur = None

    def owner(self, line):
        if line in self.fn_at:
            return self.fn_at[line], True
        for i in range(line - 1, -1, -1):
            m = re.search(r"\b(?:proof|spec|axiom|exec)?\s*fn\s+(\w+)", self.lines[i])
            if m:
                return "lemma " + m.group(1), False
        return "?", False

    def trusted(self):
        out = []
        for i, l in enumerate(self.lines):
            s = l.strip()
            if s.startswith("//") and not s.startswith("//@@"):
                continue
            if "contract proved on the inherent copy" in l or "vx: verified case by case" in l:
                continue
            if "external_body" in s or "assume_specification" in s or re.search(r"\baxiom fn\b", s) or re.search(r"\b(assume|admit)\s*\(", s) or "external_type_specification" in s:
                txt = s
                for j in range(i, min(i + 4, len(self.lines))):
                    m = re.search(r"\b(fn|struct|enum)\s+(\w+)", self.lines[j])
                    if m:
                        txt = m.group(1) + " " + m.group(2)
                        break
                kind = "axiom" if "axiom fn" in s else "assumed" if re.search(r"\b(assume|admit)\s*\(", s) else "external"
                out.append(f"{kind}: {txt}")
        return sorted(set(out))


def proof(unit, defines, tier, want_probe=True, extra=()):
    """verdict of the deductive verifier on the unit; never raises"""
    res = dict(unit=unit, status="unavailable", reason="", failures=[], functions=[], clauses=0, obligations=0, discharged=0,
               smt_ms=0, trusted=[], cmd="", plain=[], desugar=[], drops=[], probe=None, assumed=[], assume_why=[])
    vx = build_vx()
    os.makedirs(BUILD, exist_ok=True)
    name = unit + "_" + "_".join(f"{v}" for v in defines.values()) if defines else unit
    out = os.path.join(BUILD, f"gen_{name}.rs")
    assume = res["assumed"] = []
    clash, units = set(), os.path.join(VERIF, "units")
    with Lock("gen-" + name):
      # a function the extractor or the verifier's front end cannot take in its current form keeps its
      # contract unverified (res["assumed"]); the rest of the unit is still verified
      for attempt in range(8):
        rc, o, e = extract(vx, unit, defines, out, assume=assume, units=units)
        if rc != 0:
            res["reason"] = "extraction: " + (e.strip() or o.strip())[-600:]
            m = re.search(r"VX-SCAFFOLD: @(.+?)@", o)
            if m and m.group(1) not in assume:
                assume.append(m.group(1))
                res["assume_why"].append(res["reason"])
                continue
            return res
        fns = [l.split(" ", 2) for l in o.splitlines() if l.startswith("FN ")]
        res["functions"] = sorted({f[2] for f in fns if f[1] == "contract" and f[2] not in assume})
        plain = sorted({f[2] for f in fns if f[1] == "plain"})
        res["desugar"] = [l[8:] for l in o.splitlines() if l.startswith("DESUGAR ")]
        res["drops"] = [l[5:] for l in o.splitlines() if l.startswith("DROP ")]
        bp = os.path.join(VERIF, "units", unit + ".plain")
        base = set(open(bp).read().split("\n")) if os.path.exists(bp) else set()
        res["plain"] = [p for p in plain if p not in base]
        if os.environ.get("VX_WRITE_PLAIN"):
            open(bp, "w").write("\n".join(sorted(plain)) + "\n")
            res["plain"] = []
        g = Gen(out)
        res["gen"] = g
        res["trusted"] = g.trusted()
        res["clauses"] = sum(len(v) for v in g.clauses.values())
        xtra = list(extra) + props.UNITS[unit].get("verus", [])
        if tier == "thorough":
            xtra += ["--smt-option", f"smt.random_seed={SEED + 16}"]
        rc, js, diags, err, cmd = verus(out, xtra)
        res["cmd"] = cmd
        vr = js.get("verification-results")
        front = [d for d in diags if d.get("spans") and (d.get("code") or not any(m in d.get("message", "") for m in VERIF_MSG + INCONCLUSIVE_MSG))]
        if front:
            diags = front
        if not vr or vr.get("encountered-vir-error") or "success" not in vr or front:
            msgs = "; ".join(d.get("message", "")[:200] for d in diags[:3]) or err[-400:]
            res["reason"] = "not accepted by the verifier's front end: " + msgs
            taken = {m.group(1) for d in diags for m in [re.match(r"the name `(\w+)` is defined multiple times", d.get("message", ""))] if m}
            if taken - clash:
                clash |= taken
                units = renamed(name, clash)
                continue
            new = []
            for d in diags:
                for sp in d.get("spans", []):
                    ow, ins = g.owner(sp["line_start"])
                    if sp.get("is_primary") and ins and ow not in assume and ow not in new:
                        new.append(ow)
            if new:
                assume += new
                res["assume_why"].append(res["reason"])
                continue
            return res
        break
      else:
        return res
      res["reason"] = ""
      if True:
        extra = xtra
        res["obligations"] = vr.get("verified", 0) + vr.get("errors", 0)
        res["smt_ms"] = js.get("times-ms", {}).get("smt", {}).get("smt-run", 0)
        bad = vr.get("errors", 0)
        res["discharged"] = vr.get("verified", 0)
        inconcl = []
        for d in diags:
            msg = d.get("message", "")
            if msg.startswith("aborting due to") or not d.get("spans"):
                continue
            spans = d["spans"] + [s for c in d.get("children", []) for s in c.get("spans", [])]
            tags, owner, inside = set(), None, False
            for s in spans:
                ow, ins = g.owner(s["line_start"])
                if s.get("is_primary") or owner is None:
                    if owner is None or ins:
                        owner, inside = ow, ins
                for ln in range(s["line_start"], s["line_end"] + 1):
                    if s["line_end"] - s["line_start"] < 3 and ins:
                        tags |= tags_of(g.lines[ln - 1])
            if any(m in msg for m in INCONCLUSIVE_MSG):
                inconcl.append((owner, msg))
                continue
            if not tags and owner:
                tags = set(g.contract_tags.get(owner, set()))
            res["failures"].append(dict(owner=owner, message=msg, tags=sorted(tags), clause=next(
                (g.lines[s["line_start"] - 1].strip() for s in spans if tags_of(g.lines[s["line_start"] - 1])), ""),
                rendered=(d.get("rendered") or "")[:3000]))
        if bad and not res["failures"] and not inconcl:
            res["reason"] = "verifier reported failures without diagnostics"
            return res
        # a function the solver gives no answer for is undecided, not violated
        for o, m in inconcl:
            if o in res["functions"]:
                res["functions"].remove(o)
                assume.append(o)
                res["assume_why"].append(f"solver limit: {o}: {m}")
            elif o not in assume:
                res["reason"] = f"solver limit: {o}: {m}"
                return res
        if res["obligations"] == 0:
            res["reason"] = "no obligations were generated"
            return res
        res["status"] = "ok" if not res["failures"] else "failed"
        res["inconclusive"] = inconcl
        # vacuity guard: an assert(false) at the start of every function under contract must fail
        if want_probe and res["status"] == "ok":
            pout = os.path.join(BUILD, f"probe_{name}.rs")
            rc, o, e = extract(vx, unit, defines, pout, probe=True, assume=assume, units=units)
            if rc == 0:
                pg = Gen(pout)
                want = {i: l for i, l in enumerate(pg.lines, 1) if "/*PROBE fn " in l}
                _, pjs, pd, _, _ = verus(pout, extra, errors=1)
                hit = {s["line_start"] for d in pd for s in d.get("spans", [])}
                miss = [re.search(r"/\*PROBE fn (.*?)\*/", l).group(1) for i, l in want.items() if i not in hit]
                res["probe"] = dict(probed=len(want), vacuous=miss)
    return res


STRLIT = re.compile(r'b?r#"(.*?)"#|b?"((?:[^"\\]|\\.)*)"|b?\'([^\'\\]|\\.[^\']{0,8})\'|\b(0x[0-9a-fA-F_]+|\d[\d_]*)(?:u8|u16|u32|u64|usize|i32|i64)?\b', re.S)


def literals(repo, dirs):
    """string and number literals of the sources (test modules left out), in the order of the files"""
    out = []
    for d in dirs:
        top = os.path.join(repo, d)
        files = [top] if os.path.isfile(top) else sorted(os.path.join(r, f) for r, _, fs in os.walk(top) for f in fs if f.endswith(".rs") and "tests" not in os.path.relpath(r, top).split(os.sep) and f not in ("tests.rs", "tables.rs"))
        for f in files:
            t = re.split(r"#\[cfg\(test\)\]\nmod \w+ *\{", open(f, encoding="utf-8", errors="replace").read())[0]
            t = re.sub(r"(?m)//.*$", "", t)
            for m in STRLIT.finditer(t):
                if m.group(4):
                    try:
                        out.append("i %d" % int(m.group(4).replace("_", ""), 0))
                    except ValueError:
                        pass
                    continue
                w = next(g for g in m.groups()[:3] if g is not None)
                try:
                    w = re.sub(r"\\u\{([0-9a-fA-F_]+)\}", lambda x: chr(int(x.group(1).replace("_", ""), 16)), w)
                    w = re.sub(r"\\(.)", lambda x: {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(x.group(1), x.group(1)), w)
                except (ValueError, OverflowError):
                    continue
                for part in dict.fromkeys([w, *re.split(r"\{[^}]*\}", w)]):
                    if 0 < len(part) < 200:
                        out.append("s " + part.encode("utf-8", "replace").hex())
    return list(dict.fromkeys(out))


def dictionary(crate):
    """literals of the current source for the replay's generators; those the committed baseline does not have come first"""
    dirs = props.REPLAY.get(crate, {}).get("dict")
    if not dirs:
        return ""
    base = os.path.join(VERIF, "replay", crate, "dict.txt")
    lits = literals(REPO, dirs)
    if os.environ.get("VX_WRITE_DICT"):
        open(base, "w").write("\n".join(sorted(lits)) + "\n")
    known = set(open(base).read().split("\n")) if os.path.exists(base) else set()
    out = os.path.join(BUILD, f"dict_{crate}.txt")
    new = [l for l in lits if l not in known]
    open(out, "w").write("\n".join(["new"] + new[:400] + ["old"] + [l for l in lits if l in known]) + "\n")
    return out


def replay(spec, prop, tier):
    """runs the real code; returns dict(status, evaluations, ..., failures)"""
    crate, arg = spec
    src = os.path.join(VERIF, "replay", crate)
    prep = props.REPLAY.get(crate, {}).get("prepare")
    if prep:
        err = prep(VERIF, REPO, BUILD)
        if err:
            return dict(status="unavailable", reason=err, failures=[])
        src = os.path.join(BUILD, "src_" + crate)
    elif REPO != "/repo":  # development: another tree than /repo
        import shutil
        alt = os.path.join(BUILD, "alt_" + crate)
        shutil.rmtree(alt, ignore_errors=True)
        shutil.copytree(src, alt, ignore=shutil.ignore_patterns("target"))
        t = open(os.path.join(alt, "Cargo.toml")).read().replace('"/repo/', f'"{REPO}/')
        open(os.path.join(alt, "Cargo.toml"), "w").write(t)
        src = alt
    td, err = cargo_build(src, "replay_" + crate)
    if err:
        return dict(status="unavailable", reason="the replay crate does not build against this tree: " + err[-1500:], failures=[])
    out = os.path.join(BUILD, f"replay_{prop}.json")
    if os.path.exists(out):
        os.remove(out)
    rc, o, e = run([os.path.join(td, "debug", "replay-" + crate), arg, tier, str(SEED), out], 700 if tier == "thorough" else 400,
                   env=dict(ENV, VERIF_SCRATCH=os.path.join(BUILD, "scratch_" + prop), VERIF_DICT=dictionary(crate)))
    if rc != 0 or not os.path.exists(out):
        return dict(status="unavailable", reason=f"replay ended with {rc}: {e[-800:]}", failures=[])
    d = json.load(open(out))
    d["status"] = "ok"
    d["cmd"] = f"replay-{crate} {arg} {tier} {SEED}"
    return d


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\w+) key=(\S+) (.*)", l.strip())
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3)))
    return out


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    t0 = time.time()
    P = props.PROPS[prop]
    os.makedirs(EVID, exist_ok=True)
    results = []
    mine = []
    notes = []
    known = dict(known_findings(prop))
    printed_known = []
    units = [(u, {}) if isinstance(u, str) else u for u in P["units"]]
    if units:
        build_vx()
    with concurrent.futures.ThreadPoolExecutor(6) as pool:
        # the replay and the units run side by side
        rep_job = pool.submit(replay, P["replay"], prop, tier) if P.get("replay") else None
        jobs = [pool.submit(proof, unit, defines, tier, tier == "thorough" or P.get("probe", True)) for unit, defines in units]
        proofs = [j.result() for j in jobs]
        rep = rep_job.result() if rep_job else None
    for (unit, defines), r in zip(units, proofs):
        f = [x for x in r["failures"] if prop in x["tags"] or not x["tags"]]
        if f and "finding" in P and P["finding"]["unit"] == unit:
            # a listed finding: the obligations fail, and hold for the behaviour the finding describes
            k = P["finding"]
            if k["key"] in known:
                alt = proof(unit, k["defines"], tier, want_probe=False)
                if alt["status"] == "ok" or (alt["status"] == "failed" and not [x for x in alt["failures"] if prop in x["tags"] or not x["tags"]]):
                    notes.append(f"known finding {k['key']}: " + "; ".join(x["owner"] for x in f) + " fail; the tree verifies against the behaviour the finding describes")
                    printed_known.append(k["key"])
                    f = []
        r["mine"] = f
        results.append(r)
        if r["status"] == "unavailable":
            notes.append(f"unit {unit}: proof not redone on this tree ({r['reason']}); bounded stand-in decides")
            say(f"NOTE unit {unit}: {r['reason']}")
        und = set(r["assumed"]) | {o for o, _ in r.get("inconclusive", [])}
        # a clause that says more than the property failed: the property is undecided by the proof
        soft = {x["owner"] for x in r["failures"] if prop + "?" in x["tags"] and prop not in x["tags"]}
        if soft:
            r["assume_why"] = [f"{x['owner']}: {x['message']} {x['clause']}" for x in r["failures"]] + r["assume_why"]
        und |= soft
        r["undecided"] = sorted(k for k in und if k and (r.get("gen") is None or k in soft or {prop, prop + "?"} & r["gen"].contract_tags.get(k, {prop})))
        for k in r["undecided"]:
            notes.append(f"unit {unit}: contract of {k} not discharged on this tree ({'; '.join(w[:300] for w in r['assume_why'][:3]) or 'solver limit'}); the bounded replay stands in for it")
            say("NOTE", notes[-1][:400])
        if r["plain"] and f:
            notes.append(f"unit {unit}: the source has functions without contract ({', '.join(r['plain'])}); failed obligations are inconclusive")
            say("NOTE", notes[-1])
            f = []
        if r["probe"] and r["probe"]["vacuous"]:
            notes.append(f"unit {unit}: contracts without content for {r['probe']['vacuous']}")
            say("NOTE", notes[-1])
        mine += f
    rfail = list(rep["failures"]) if rep else []
    if rep and rep.get("known"):
        for k in rep["known"]:
            if k["key"] in known:
                if k["key"] not in printed_known:
                    printed_known.append(k["key"])
            else:
                rfail.append(dict(input=k.get("input", k["key"]), what=k["what"]))
    if rep and rep["status"] != "ok":
        notes.append("replay: " + rep["reason"])
        say("NOTE replay:", rep["reason"])
    for k in printed_known:
        say(f"KNOWN-FINDING: property={prop} {known[k]}")

    violation = None
    rdir = os.path.join(BUILD, "violations")
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, prop + ".txt")
    if mine or rfail:
        with open(rpath, "w") as fh:
            fh.write(f"property {prop}: {P['title']}\n")
            for x in mine:
                fh.write(f"\nfailed obligation: {x['owner']}: {x['message']}\n  {x['clause']}\n{x['rendered']}\n")
            for x in rfail:
                fh.write(f"\nfailing input (real code): {x['input']}\n  {x['what']}\n")
            if rep and rep.get("cmd"):
                fh.write(f"\nreplay: {rep['cmd']}\n")
            if not rfail:
                fh.write("\nno failing input was found by the search over the real code\n")
        violation = f"VIOLATION property={prop} replay={rpath}" + ("" if rfail else " no-failing-input-found")

    proved = all(r["status"] != "unavailable" and not r.get("undecided") for r in results) and not mine
    cov = dict(
        obligations=sum(r["obligations"] for r in results), discharged=sum(r["discharged"] for r in results),
        checker_cmd="; ".join(r["cmd"] for r in results if r["cmd"]) or "verus (not reached)",
        trusted_base=sorted({t for r in results for t in r["trusted"]}) + props.TRUSTED,
        functions_under_contract=sorted({f for r in results for f in r["functions"]}),
        functions_with_clauses_of_this_property=sorted({k for r in results if r.get("gen") for k, v in r["gen"].clauses.items() if any({prop, prop + "?"} & t for _, t, _ in v)}),
        clauses_of_this_property=sum(1 for r in results if r.get("gen") for v in r["gen"].clauses.values() for _, t, _ in v if {prop, prop + "?"} & t),
        back_end="Verus (Z3)", solver_ms=sum(r["smt_ms"] for r in results),
        vacuity_probe=[r["probe"] for r in results if r["probe"]],
        extraction=dict(desugared=[d for r in results for d in r["desugar"]], dropped=[d for r in results for d in r["drops"]]),
        failed_obligations=[f"{x['owner']}: {x['message']} {x['clause']}" for x in mine],
        bounded_replay=None if not rep else {k: rep.get(k) for k in ("status", "cmd", "evaluations", "distinct_nontrivial", "samples", "rule")},
        contracts_not_discharged=[k for r in results for k in r.get("undecided", [])],
        notes=notes,
    )
    level = P["level"]
    if not proved and not mine:
        level = "exploration"
        cov.update(evaluations=(rep or {}).get("evaluations", 0), distinct_nontrivial=(rep or {}).get("distinct_nontrivial", 0),
                   rule="bounded stand-in: generated inputs on the real code, distinct by content", samples=(rep or {}).get("samples", []))
    ev = dict(property=prop, tier=tier, seed=SEED, level=level, coverage=cov, assumptions=P["assumptions"] + props.ASSUMPTIONS,
              wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    say(f"{prop} {tier}: proof {'+'.join(r['status'] for r in results)} ({cov['discharged']}/{cov['obligations']} functions, {cov['clauses_of_this_property']} clauses), "
        f"replay {rep['status'] if rep else '-'} ({(rep or {}).get('evaluations', 0)} runs), {ev['wall_s']} s")
    if violation:
        for x in mine:
            say(f"failed obligation: {x['owner']}: {x['message']} {x['clause']}")
        for x in rfail[:3]:
            say("failing input:", str(x["input"])[:400], "--", str(x["what"])[:400])
        say(violation)
        sys.exit(1)


if __name__ == "__main__":
    main()
