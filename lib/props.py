"""Which unit(s) and which replay decide each property."""
import json, os, sys

_here = os.path.dirname(os.path.abspath(__file__))
TITLES = {}
for _l in open(os.path.join(_here, "..", "properties.jsonl")):
    if _l.strip():
        _d = json.loads(_l)
        TITLES[_d["id"]] = _d["title"]

TRUSTED = [
    "Verus, its vstd specifications of the standard library, and Z3",
    "vx: the extraction keeps the text of every function under contract and only applies the desugarings listed under coverage.extraction",
]
ASSUMPTIONS = [
    "closures and derived trait implementations behave as Rust defines them",
    "allocation never fails",
]

UNITS = {"wasp": {}, "merge": {}}
sys.path.insert(0, _here)
import core_prep
import support_prep  # noqa: E402

REPLAY = {"wasp": {"dict": ["wasp-compiler/src", "wasp-compiler/wasp.pest"]}, "merge": {"dict": ["wasm-merge/src"]}, "core": {"prepare": core_prep.prepare, "dict": ["wastrumentation/src", "wastrumentation-static-analysis/src", "supported-languages"]},
          "support": {"prepare": support_prep.prepare, "dict": ["supported-languages/rust/src/generate/instrumentation", "wastrumentation/src/wasm_constructs"]}}

# the C06 clauses are switched on in the C06 run only: they fail on the current tree (known finding)
W = ("wasp", {"MUTFORM": "SpeInter", "MUTON": "false"})
W6 = ("wasp", {"MUTFORM": "SpeInter", "MUTON": "true"})
_wasp_assume = [
    "pest / from_pest turn a text into the parsed tree the grammar describes (outside the verifier's reach; exercised by the bounded replay through compile())",
]
PROPS = {}


def prop(pid, units, replay, level="proof", assumptions=(), **kw):
    PROPS[pid] = dict(title=TITLES[pid], units=units, replay=replay, level=level, assumptions=list(assumptions), **kw)


for _p in ("C01", "C02", "C03", "C04", "C05", "C07", "C08"):
    prop(_p, [W], ("wasp", _p), assumptions=_wasp_assume)
prop("C06", [W6], ("wasp", "C06"), assumptions=_wasp_assume,
     finding=dict(unit="wasp", key="inverted-mutability", defines={"MUTFORM": "SpeIntro", "MUTON": "true"}))

_merge_assume = [
    "contracts assumed on std::process::Command/Output, tempfile::NamedTempFile, [String]::join, String::from_utf8_lossy, Display of strings: what their documentation says (units/merge.vu, units/words.vu)",
    "the path of a temporary file and every namespace is one shell word without special characters; the shell splits the command at blanks",
    "the order in time of writing the inputs, running the merger and reading its output, and that the input files still exist while it runs, are not part of the contracts (exercised by the bounded replay)",
]
for _p in ("C10", "C11", "C12"):
    prop(_p, [("merge", {})], ("merge", _p), assumptions=_merge_assume)

UNITS["ops"] = {}
_core_assume = [
    "the data types of the wasabi_wasm crate and the few operations on them that are used, as written in units/wasabi.vu (the crate's source is not available here)",
]
prop("C30", [("ops", {})], ("core", "C30"), assumptions=_core_assume)
for _u, _ps in {"hooks_block": ("C25",), "hooks_branch": ("C26", "C31"), "hooks_call": ("C27",), "hooks_simple": ("C28",), "hooks_mem": ("C29",)}.items():
    UNITS[_u] = {}
    for _p in _ps:
        prop(_p, [(_u, {})], ("core", _p), assumptions=_core_assume)
_hooks = [(u, {}) for u in ("hooks_block", "hooks_branch", "hooks_call", "hooks_simple", "hooks_mem")]
UNITS["hooks_simple"]["verus"] = ["--rlimit", "40"]
for _p in ("C22", "C23"):
    prop(_p, _hooks, ("core", _p), probe=False, assumptions=_core_assume)

UNITS["nest"] = {}
_nest_assume = ["the type checker of wasabi_wasm is deterministic: its answer depends on the function, the module and the instructions before"]
for _p in ("C20", "C21"):
    prop(_p, [("nest", {})], ("core", _p), assumptions=_core_assume + _nest_assume)

UNITS["part"] = {}
prop("C38", [("part", {})], ("core", "C38"), assumptions=_core_assume + [
    "analysis compiler, instrument() and instrumentation-library compiler are functions of their inputs (trusted contracts on the traits Compiles, DefaultCompilerOptions and on instrument::instrument)",
    "MergeOptions::merge is a function of the options (what it does is C10 to C12)",
    "a String made from a str has the same text; Option::as_deref on an optional Vec gives the same bytes"])

UNITS["pure"] = {}
_pure_assume = _core_assume + [
    "what the nested body of a function is: the contract of HighLevelBody::try_from, discharged by the C20 check",
    "a panic reports nothing (unwrap/expect taken as giving the value or not returning); integer HashSet as specified by vstd"]
prop("C37", [("pure", {})], ("core", "C37"), assumptions=_pure_assume)
prop("C44", [("pure", {})], ("core", "C44"), assumptions=_pure_assume + [
    "the derived PartialEq of the verdict compares it structurally"])

UNITS["names"] = {}
prop("C34", [("names", {})], ("core", "C34"), assumptions=[
    "format!, write! and [&str]::join as documented: literal pieces and the Display text of the arguments, in order (str, String: its characters; usize: its decimal digits)",
    "what Display writes for WasmType and SignatureSide inside format! is what their fmt writes (their fmt is under contract)"])

UNITS["iface"] = {}
prop("C33", [("iface", {})], ("core", "C33"), assumptions=[
    "a String made from a str has the same text",
    "the static operands written in the contracts are those pushed by the call sites: the contracts of the hook transformations (C25 to C31) fix the pushed instructions"])

UNITS["memh"] = {}
prop("C32", [("memh", {})], ("core", "C32"), assumptions=_core_assume + [
    "Module::function_mut gives the function with that index and changes no other; Memarg::default has offset 0 and the natural alignment; ValType::zero is the zero of the type",
    "the module has fewer than 2^32 - 65536 functions"])

UNITS["appl"] = {}
prop("C41", [("appl", {})], ("core", "C41"), assumptions=_core_assume + [
    "HashSet and HashMap as documented; iterating the same unchanged set twice gives the same order (the order itself is arbitrary)",
    "Function::locals gives the declared locals in order, add_fresh_local the index after parameters and existing locals; Instr and Code clones are equal to the original",
    "the code generator of the support library (LibGeneratable::generate_lib) is a parameter: what it generates from the listed signatures is not covered",
    "i32::try_from / u32::try_from keep the number or panic"])

UNITS["top"] = {}
_top_assume = _core_assume + [
    "Module::from_bytes, to_bytes, functions, function, function_mut, add_function_import as documented (units/top.vu); a module has at most 2^32 - 1 functions",
    "HashSet as documented; iterating the same unchanged set twice gives the same order (the order itself is arbitrary)",
    "lifting and lowering of bodies, one hook over one body, the memory helpers and the interception of whole functions are named here (lifted, lowered, transformed, helpers, intercepts); what they do is the contract discharged in the checks of C20 to C23, C25 to C31, C32 and C41",
    "Iterator::zip, slice::contains and the conversions str to String as documented"]
prop("C40", [("top", {})], ("core", "C40"), assumptions=_top_assume)
prop("C42", [("top", {}), ("appl", {}), ("memh", {})] + _hooks, ("core", "C42"), probe=False, assumptions=_top_assume + [
    "that hooks and memory helpers only add functions, and that the interception leaves other functions alone, is assumed where the pipeline calls them and discharged on the callees in the same run (units hooks_*, memh, appl)"])

UNITS["groups"] = {}
prop("C43", [("groups", {})], ("core", "C43"), assumptions=_core_assume + [
    "HashSet as documented; the order of iteration is arbitrary; HashSet::from of an array holds the elements of the array",
    "the derived Default of AnalysisInterface provides nothing; a String made from a str has the same text",
    "specialised apply advice of a WASP program is a todo!() in the code: there the conversion gives nothing"])

UNITS["rlib"] = {}
prop("C45", [("rlib", {})], ("support", "C45"), assumptions=[
    "format! and [String]::join as documented; String::from of a str has the same text; HashSet as documented, its order of iteration arbitrary",
    "a signature is determined by its two lists of types; the number of its results and arguments is below usize::MAX",
    "Deref of RustSignature gives the signature it wraps",
    "what the generated text means as a Rust program, and the fixed text before it (raw memory access, allocation), is only exercised: the bounded replay compiles the generated library natively with a stand-in for wee_alloc and runs it for lists of number types"])

NOT_APPLICABLE = {
    "E01": "needs the semantics of WebAssembly execution and of the external merger and engine: no contract on functions of this repository can express it",
}
for _t in TITLES:
    if _t not in PROPS and _t not in NOT_APPLICABLE:
        NOT_APPLICABLE[_t] = "contracts for this part are not built yet"
