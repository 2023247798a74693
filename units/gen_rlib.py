"""units/rlib.vu: the Rust support library (C45) (run from units/: python3 gen_rlib.py > rlib.vu)"""
import json, re
SRC = "supported-languages/rust/src/generate/instrumentation/mod.rs"
def T(tt, **k):
    """the concatenation a format! with this template stands for"""
    out = "Seq::<char>::empty()"
    for p in re.split(r"(\{\{|\}\}|\{\w+\})", tt):
        if p in ("{{", "}}"): p = p[0]; out += "\0" + p
        elif p.startswith("{"): out += "\1" + k[p[1:-1]] + "\2"
        elif p: out += "\0" + p
    # literals run together
    out = re.sub("\0([^\0\1\2]*)((?:\0[^\0\1\2]*)*)", lambda m: " + " + json.dumps((m[1] + m[2]).replace("\0", "")) + "@", out)
    return re.sub("\1([^\2]*)\2", r" + \1", out)
FNS = []
def fn(name, contract, loops=(), start="", extra=""):
    o = f"@@fn rlib::{name}\n@contract\n{contract}"
    m = re.search(r"=~= ([gs]_\w+)\(", contract)
    if m: start = f"    proof {{ reveal({m[1]}); }}"
    if loops: o += "@attr\n#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n"
    if start: o += f"@start\n{start}\n"
    for i, l in enumerate(loops): o += f"@loop {i}\n{l}"
    FNS.append(o + extra)
SPEC = []
def spec(sig, body): SPEC.append(("#[verifier::opaque] " if sig[:2] in ("g_", "s_") else "") + f"pub open spec fn {sig} -> Seq<char> {{ {body} }}")
# ---- lines and definitions, by what they are for ----
spec("gname(r: nat, a: nat)", T("ret_{r}_arg_{a}", r="dec(r)", a="dec(a)"))
SPEC.append("/// where a value lives: results first, then arguments\npub open spec fn slot(s: SignatureSide, r: nat, i: nat) -> nat { match s { SignatureSide::Return => i, SignatureSide::Argument => r + i } }")
A, R = "SignatureSide::Argument", "SignatureSide::Return"
SPEC.append("pub open spec fn code(t: WasmType) -> usize { match t { WasmType::I32 => 0, WasmType::F32 => 1, WasmType::I64 => 2, WasmType::F64 => 3, WasmType::Ref(RefType::FuncRef) => 4, WasmType::Ref(RefType::ExternRef) => 5 } }")
spec("keep(r: nat, n: nat)", T("    wastrumentation_memory_store(frame_ptr, a{n}, {s});", n="dec(n)", s=f"dec(slot({A}, r, n))"))
spec("value_param(n: nat)", T("a{n}: WasmValue", n="dec(n)"))
spec("typed_param(n: nat, t: WasmType)", T("a{n}: {t}", n="dec(n)", t="tok(t)"))
spec("wrapped(n: nat, t: WasmType)", T("{c}(a{n})", n="dec(n)", c="ctor(t)"))
SPEC.append("""/// how a value of a type goes into a slot, and how it comes out again
pub open spec fn ctor(t: WasmType) -> Seq<char> { match t { WasmType::I32 => "WasmValue::new_i32"@, WasmType::F32 => "WasmValue::new_f32"@, WasmType::I64 => "WasmValue::new_i64"@, WasmType::F64 => "WasmValue::new_f64"@, WasmType::Ref(RefType::ExternRef) => "WasmValue::new_extern_ref"@, WasmType::Ref(RefType::FuncRef) => "WasmValue::new_func_ref"@ } }
pub open spec fn field(t: WasmType) -> Seq<char> { match t { WasmType::I32 => "i32"@, WasmType::F32 => "f32"@, WasmType::I64 => "i64"@, WasmType::F64 => "f64"@, WasmType::Ref(RefType::ExternRef) => "extern_ref"@, WasmType::Ref(RefType::FuncRef) => "func_ref"@ } }
pub open spec fn variant(t: WasmType) -> Seq<char> { match t { WasmType::I32 => "I32"@, WasmType::F32 => "F32"@, WasmType::I64 => "I64"@, WasmType::F64 => "F64"@, WasmType::Ref(RefType::FuncRef) => "FuncRef"@, WasmType::Ref(RefType::ExternRef) => "ExternRef"@ } }
pub open spec fn params(s: Seq<WasmType>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| typed_param(i as nat, s[i])) }
pub open spec fn wraps(s: Seq<WasmType>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| wrapped(i as nat, s[i])) }
pub open spec fn value_params(n: nat) -> Seq<Seq<char>> { Seq::new(n, |i: int| value_param(i as nat)) }
pub open spec fn keeps(r: nat, a: nat) -> Seq<Seq<char>> { Seq::new(a, |i: int| keep(r, i as nat)) }""")
spec("g_allocate(r: nat, a: nat)", "if r + a == 0 { " + T("\n#[inline(always)]\nfn allocate_{g}() -> usize {{\n    0 // Fake shadow pointer for empty signatures\n}}", g="gname(r, a)") + " } else { "
    + T("\n#[inline(always)]\nfn allocate_{g}({p}) -> usize {{\n    let frame_ptr = stack_allocate_values({n});\n{k}\n    frame_ptr\n}}", g="gname(r, a)", p='joined(value_params(a), ", "@)', n="dec(r + a)", k='joined(keeps(r, a), "\\n"@)') + " }")
spec("s_allocate(r: Seq<WasmType>, a: Seq<WasmType>)", T("\n#[no_mangle]\npub extern \"C\" fn {m}({p}) -> usize {{\n    allocate_{g}({w})\n}}\n", m="nm(Purpose::Allocate, r, a)", p='joined(params(a), ", "@)', g="gname(r.len(), a.len())", w='joined(wraps(a), ", "@)'))
spec("g_types(r: nat, a: nat)", T("\n#[inline(always)]\nfn allocate_signature_types_buffer_{g}() -> usize {{\n    stack_allocate_types({n}) // inlined\n}}", g="gname(r, a)", n="dec(r + a)"))
spec("type_line(i: nat, t: WasmType)", T("    wastrumentation_stack_store_type(types_buffer, {i}, RuntimeType::{v});", i="dec(i)", v="variant(t)"))
SPEC.append("/// the types of all slots, in the order of the slots\npub open spec fn type_lines(s: Seq<WasmType>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| type_line(i as nat, s[i])) }")
spec("s_types(r: Seq<WasmType>, a: Seq<WasmType>)", T("\n#[no_mangle]\npub extern \"C\" fn {m}() -> usize {{\n    let types_buffer = allocate_signature_types_buffer_{g}();\n{l}\n    types_buffer\n}}", m="nm(Purpose::AllocateTypes, r, a)", g="gname(r.len(), a.len())", l='joined(type_lines(r + a), "\\n"@)'))
def two(name, what):
    SPEC.append(f"pub open spec fn {name}_all(r: nat, a: nat) -> Seq<Seq<char>> {{ Seq::new(a + r, |i: int| if i < a {{ {what}(r, a, {A}, i as nat) }} else {{ {what}(r, a, {R}, (i - a) as nat) }}) }}")
    spec(f"{name}(r: nat, a: nat)", f'joined({name}_all(r, a), "\\n"@)')
def twos(name, what):
    SPEC.append(f"pub open spec fn {name}_all(r: Seq<WasmType>, a: Seq<WasmType>) -> Seq<Seq<char>> {{ Seq::new(a.len() + r.len(), |i: int| if i < a.len() {{ {what}(r, a, {A}, i as nat, a[i]) }} else {{ {what}(r, a, {R}, (i - a.len()) as nat, r[i - a.len()]) }}) }}")
    spec(f"{name}(r: Seq<WasmType>, a: Seq<WasmType>)", f'joined({name}_all(r, a), "\\n"@)')
def bysided(sig, tt, **k):
    """the side's name stands in a literal of the source"""
    f = lambda n, v: T(tt.replace("<side>", n).replace("<v>", v), **k)
    spec(sig, "match s { SignatureSide::Argument => " + f("arg", "a") + ", SignatureSide::Return => " + f("ret", "r") + " }")
bysided("load_fn(r: nat, a: nat, s: SignatureSide, n: nat)", "\n#[inline(always)]\nfn load_<side>{n}_{g}(stack_ptr: usize) -> WasmValue {{\n    wastrumentation_memory_load(stack_ptr, {s})\n}}", n="dec(n)", g="gname(r, a)", s="dec(slot(s, r, n))")
two("g_load", "load_fn")
bysided("store_fn(r: nat, a: nat, s: SignatureSide, n: nat)", "\n#[inline(always)]\nfn store_<side>{n}_{g}(stack_ptr: usize, <v>{n}: WasmValue) {{\n    wastrumentation_memory_store(stack_ptr, <v>{n}, {s});\n}}", n="dec(n)", g="gname(r, a)", s="dec(slot(s, r, n))")
two("g_store", "store_fn")
bysided("load_ex(r: Seq<WasmType>, a: Seq<WasmType>, s: SignatureSide, n: nat, t: WasmType)", "\n#[no_mangle]\npub extern \"C\" fn {m}(stack_ptr: usize) -> {t} {{\n    let val = load_<side>{n}_{g}(stack_ptr);\n    unsafe {{ val.{f} }}\n}}", m="nm(Purpose::Load(s, n), r, a)", t="tok(t)", n="dec(n)", g="gname(r.len(), a.len())", f="field(t)")
twos("s_load", "load_ex")
bysided("store_ex(r: Seq<WasmType>, a: Seq<WasmType>, s: SignatureSide, n: nat, t: WasmType)", "\n#[no_mangle]\npub extern \"C\" fn {m}(stack_ptr: usize, a{n}: {t}) {{\n    store_<side>{n}_{g}(stack_ptr, {c}(a{n}));\n}}", m="nm(Purpose::Store(s, n), r, a)", t="tok(t)", n="dec(n)", g="gname(r.len(), a.len())", c="ctor(t)")
twos("s_store", "store_ex")
spec("g_free(r: nat, a: nat)", "if r + a == 0 { " + T("\n#[inline(always)]\nfn free_values_{g}(_ptr: usize) {{\n    // No deallocation for empty signatures\n}}", g="gname(r, a)") + " } else { "
    + T("\n#[inline(always)]\nfn free_values_{g}(ptr: usize) {{\n    stack_deallocate_values(ptr, {n});\n}}", g="gname(r, a)", n="dec(r + a)") + " }")
spec("s_free(r: Seq<WasmType>, a: Seq<WasmType>)", T("\n#[no_mangle]\npub extern \"C\" fn {m}(ptr: usize) {{\n    free_values_{g}(ptr);\n}}", m="nm(Purpose::FreeValues, r, a)", g="gname(r.len(), a.len())"))
spec("g_free_types(r: nat, a: nat)", T("\n#[inline(always)]\nfn free_types_{g}(ptr: usize) {{\n    stack_deallocate_types(ptr, {n});\n}}", g="gname(r, a)", n="dec(r + a)"))
spec("s_free_types(r: Seq<WasmType>, a: Seq<WasmType>)", T("\n#[no_mangle]\npub extern \"C\" fn {m}(ptr: usize) {{\n    free_types_{g}(ptr);\n}}", m="nm(Purpose::FreeTypes, r, a)", g="gname(r.len(), a.len())"))
spec("ret_line(r: nat, a: nat, n: nat)", T("    store_ret{n}_{g}(stack_ptr, a{n});", n="dec(n)", g="gname(r, a)"))
SPEC.append("""pub open spec fn ret_lines(r: nat, a: nat) -> Seq<Seq<char>> { Seq::new(r, |i: int| ret_line(r, a, i as nat)) }
pub open spec fn with_first(x: Seq<char>, s: Seq<Seq<char>>) -> Seq<Seq<char>> { Seq::new(s.len() + 1, |i: int| if i == 0 { x } else { s[i - 1] }) }""")
spec("g_store_rets(r: nat, a: nat)", T("\n#[inline(always)]\nfn store_rets_{g}({p}) {{\n{l}\n}}", g="gname(r, a)", p='joined(with_first(first_param(r), value_params(r)), ", "@)', l='joined(ret_lines(r, a), "\\n"@)'))
spec("ret_args(r: Seq<WasmType>)", 'if r.len() == 0 { "stack_ptr"@ } else { ' + T("stack_ptr, {w}", w='joined(wraps(r), ", "@)') + " }")
spec("s_store_rets(r: Seq<WasmType>, a: Seq<WasmType>)", T("\n#[no_mangle]\npub extern \"C\" fn {m}({p}) {{\n    store_rets_{g}({w});\n}}", m="nm(Purpose::StoreRets, r, a)", p='joined(with_first("stack_ptr: usize"@, params(r)), ", "@)', g="gname(r.len(), a.len())", w="ret_args(r)"))
spec("first_param(r: nat)", 'if r == 0 { "_stack_ptr: usize"@ } else { "stack_ptr: usize"@ }')
SPEC.append("""pub open spec fn counted(s: Seq<Signature>, r: nat, a: nat) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).return_types@.len() == r && s[i].argument_types@.len() == a }
pub open spec fn known(s: Seq<Signature>, x: Signature) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).return_types@ == x.return_types@ && s[i].argument_types@ == x.argument_types@ }
pub open spec fn generic(r: nat, a: nat) -> Seq<char> { g_allocate(r, a) + g_load(r, a) + g_store(r, a) + g_free(r, a) + g_store_rets(r, a) + g_types(r, a) + g_free_types(r, a) }
pub open spec fn special(r: Seq<WasmType>, a: Seq<WasmType>) -> Seq<char> { s_allocate(r, a) + s_load(r, a) + s_store(r, a) + s_free(r, a) + s_store_rets(r, a) + s_types(r, a) + s_free_types(r, a) }
/// each definition the first time it is asked for, and only then
pub open spec fn lib(s: Seq<Signature>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else {
        let (p, x) = (s.drop_last(), s.last());
        let (r, a) = (x.return_types@, x.argument_types@);
        lib(p) + (if counted(p, r.len(), a.len()) { Seq::empty() } else { generic(r.len(), a.len()) }) + (if known(p, x) { Seq::empty() } else { special(r, a) })
    }
}
// Trusted: a signature is determined by its types (Vec compares by its items)
pub axiom fn axiom_signature() ensures forall|a: Signature, b: Signature| #[trigger] a.return_types@ == #[trigger] b.return_types@ && a.argument_types@ == b.argument_types@ ==> a == b;
/// the same, one piece behind the other
pub open spec fn with_generic(b: bool, p: Seq<char>, r: nat, a: nat) -> Seq<char> { if b { p + g_allocate(r, a) + g_load(r, a) + g_store(r, a) + g_free(r, a) + g_store_rets(r, a) + g_types(r, a) + g_free_types(r, a) } else { p } }
pub open spec fn with_special(b: bool, p: Seq<char>, r: Seq<WasmType>, a: Seq<WasmType>) -> Seq<char> { if b { p + s_allocate(r, a) + s_load(r, a) + s_store(r, a) + s_free(r, a) + s_store_rets(r, a) + s_types(r, a) + s_free_types(r, a) } else { p } }
pub proof fn lem_with(p: Seq<char>, b: bool, c: bool, r: Seq<WasmType>, a: Seq<WasmType>)
    ensures p + (if b { generic(r.len(), a.len()) } else { Seq::empty() }) + (if c { special(r, a) } else { Seq::empty() }) == with_special(c, with_generic(b, p, r.len(), a.len()), r, a)
{
    let q = with_generic(b, p, r.len(), a.len());
    assert(p + (if b { generic(r.len(), a.len()) } else { Seq::empty() }) =~= q);
    assert(q + (if c { special(r, a) } else { Seq::empty() }) =~= with_special(c, q, r, a));
}
pub proof fn lem_lib(s: Seq<Signature>, i: int)
    requires 0 <= i < s.len()
    ensures ({ let (p, x) = (s.take(i), s[i]); let (r, a) = (x.return_types@, x.argument_types@);
        &&& lib(s.take(i + 1)) == with_special(!known(p, x), with_generic(!counted(p, r.len(), a.len()), lib(p), r.len(), a.len()), r, a)
        &&& forall|m: nat, n: nat| #[trigger] counted(s.take(i + 1), m, n) <==> counted(p, m, n) || m == r.len() && n == a.len()
        &&& forall|y: Signature| #[trigger] known(s.take(i + 1), y) <==> known(p, y) || (y.return_types@ == r && y.argument_types@ == a) })
{
    let q = s.take(i + 1); let p = s.take(i);
    assert(q.drop_last() =~= p);
    lem_with(lib(p), !counted(p, s[i].return_types@.len(), s[i].argument_types@.len()), !known(p, s[i]), s[i].return_types@, s[i].argument_types@);
    assert forall|m: nat, n: nat| #[trigger] counted(q, m, n) <==> counted(p, m, n) || m == s[i].return_types@.len() && n == s[i].argument_types@.len() by {
        if counted(p, m, n) { let j = choose|j: int| 0 <= j < p.len() && (#[trigger] p[j]).return_types@.len() == m && p[j].argument_types@.len() == n; assert(q[j] == p[j]); }
        if counted(q, m, n) { let j = choose|j: int| 0 <= j < q.len() && (#[trigger] q[j]).return_types@.len() == m && q[j].argument_types@.len() == n; if j < i { assert(q[j] == p[j]); } }
        if m == s[i].return_types@.len() && n == s[i].argument_types@.len() { assert(q[i] == s[i]); }
    }
    assert forall|y: Signature| #[trigger] known(q, y) <==> known(p, y) || (y.return_types@ == s[i].return_types@ && y.argument_types@ == s[i].argument_types@) by {
        if known(p, y) { let j = choose|j: int| 0 <= j < p.len() && (#[trigger] p[j]).return_types@ == y.return_types@ && p[j].argument_types@ == y.argument_types@; assert(q[j] == p[j]); }
        if known(q, y) { let j = choose|j: int| 0 <= j < q.len() && (#[trigger] q[j]).return_types@ == y.return_types@ && q[j].argument_types@ == y.argument_types@; if j < i { assert(q[j] == p[j]); } }
        if y.return_types@ == s[i].return_types@ && y.argument_types@ == s[i].argument_types@ { assert(q[i] == s[i]); }
    }
}
""")
# ---- the functions ----
I = "RustSignature<'_>::"
fn(I + "generic_rust_name", "    ensures r@ =~= gname($p0 as nat, $p1 as nat), // [C45]\n")
fn(I + "mangled_rust_name_by_count", "    ensures r@ =~= gname(self.0.return_types@.len(), self.0.argument_types@.len()), // [C45]\n")
fn(I + "wasmvalue_constructor_for_type", "    ensures r@ =~= ctor(*$p0), // [C45]\n")
fn(I + "wasmvalue_accessor_for_type", "    ensures r@ =~= field(*$p0), // [C45]\n")
FNS.append("@@fn wasm_constructs::WasmType::runtime_enum_variant\n@contract\n    ensures r@ =~= crate::rustlib::variant(*self), // [C45]\n")
FNS.append("@@fn wasm_constructs::WasmType::runtime_enum_value\n@contract\n    ensures r == crate::rustlib::code(*self), // [C45]\n")
G = "    requires rets_count + args_count <= usize::MAX\n    ensures r@ =~= {}(rets_count as nat, args_count as nat), // [C45]\n"
S = "    requires $p0.0.return_types@.len() + $p0.0.argument_types@.len() < usize::MAX\n    ensures r@ =~= {}($p0.0.return_types@, $p0.0.argument_types@), // [C45]\n"
def counted(k, out, n, line, pre=0, more=""):
    """invariant of a loop over 0..n that appends line(i)"""
    return f"""invariant all{k}.len() == {n}, forall|i: int| 0 <= i < all{k}.len() ==> (#[trigger] all{k}[i]) == i, {out}@.len() == {pre} + idx{k}, forall|i: int| {pre} <= i < {out}@.len() ==> (#[trigger] {out}@[i])@ =~= {line},{more}
"""
def listed(k, out, lst, line, pre=0, more=""):
    return f"""invariant all{k}.len() == {lst}@.len(), forall|i: int| 0 <= i < all{k}.len() ==> (#[trigger] all{k}[i]).0 == i && *all{k}[i].1 == {lst}@[i], {out}@.len() == {pre} + idx{k}, forall|i: int| {pre} <= i < {out}@.len() ==> (#[trigger] {out}@[i])@ =~= {line},{more}
"""
def refs(k, out, lst, line, pre=0, more=""):
    return listed(k, out, lst, line, pre, more).replace(f"all{k}[i]).0 == i && *all{k}[i].1 ==", f"*all{k}[i]) ==").replace(f"#[trigger] *all{k}[i])", f"*(#[trigger] all{k}[i]))")
old = "forall|i: int| 0 <= i < {} ==> (#[trigger] vx_out0@[i])@ =~= {},"
b = "rets_count + args_count <= usize::MAX,"
sr, sa = "signature.0.return_types", "signature.0.argument_types"
fn("generate_allocate_generic", G.format("g_allocate"), [counted(0, "vx_out0", "args_count", "keep(rets_count as nat, i as nat)", more=b), counted(1, "vx_out1", "args_count", "value_param(i as nat)")])
fn("generate_allocate_specialized", S.format("s_allocate"), [listed(0, "vx_out0", sa, f"typed_param(i as nat, {sa}@[i])"), listed(1, "vx_out1", sa, f"wrapped(i as nat, {sa}@[i])")])
fn("generate_allocate_types_buffer_generic", G.format("g_types"))
fn("generate_allocate_types_buffer_specialized", S.format("s_types"), [refs(0, "vx_out1", sr, f"type_line(i as nat, {sr}@[i])", more="vx_n0 == idx0,"),
    refs(1, "vx_out1", sa, f"type_line(i as nat, {sa}@[i - {sr}@.len()])", f"{sr}@.len()", more=f"vx_n0 == {sr}@.len() + idx1," + old.replace("vx_out0", "vx_out1").format(f"{sr}@.len()", f"type_line(i as nat, {sr}@[i])"))])
#old|i: int| 0 <= i < {} ==> (#[trigger] vx_out0@[i])@ =~= {},"
for kind in ("load", "store"):
    fn(f"generate_{kind}_generic", G.format(f"g_{kind}"), [counted(0, "vx_out0", "args_count", f"{kind}_fn(rets_count as nat, args_count as nat, {A}, i as nat)", more=b),
        counted(1, "vx_out0", "rets_count", f"{kind}_fn(rets_count as nat, args_count as nat, {R}, (i - args_count) as nat)", "args_count", more=b + old.format("args_count", f"{kind}_fn(rets_count as nat, args_count as nat, {A}, i as nat)"))])
    ex = f"{kind}_ex({sr}@, {sa}@, "
    fn(f"generate_{kind}_specialized", S.format(f"s_{kind}"), [listed(0, "vx_out0", sa, f"{ex}{A}, i as nat, {sa}@[i])"),
        listed(1, "vx_out0", sr, f"{ex}{R}, (i - {sa}@.len()) as nat, {sr}@[i - {sa}@.len()])", f"{sa}@.len()", more=old.format(f"{sa}@.len()", f"{ex}{A}, i as nat, {sa}@[i])"))])
fn("generate_free_values_buffer_generic", G.format("g_free"))
fn("generate_free_values_buffer_specialized", S.format("s_free"))
fn("generate_free_types_buffer_generic", G.format("g_free_types"))
fn("generate_free_types_buffer_specialized", S.format("s_free_types"))
one = "invariant all0.len() == 1, all0[0]@ =~= {}, vx_out0@.len() == idx0, forall|i: int| 0 <= i < vx_out0@.len() ==> (#[trigger] vx_out0@[i])@ =~= all0[0]@,\n"
fn("generate_store_rets_generic", G.format("g_store_rets"), [one.format("first_param(rets_count as nat)"), counted(1, "vx_out0", "rets_count", "value_param((i - 1) as nat)", 1, more="vx_out0@[0]@ =~= first_param(rets_count as nat),"),
    counted(2, "vx_out1", "rets_count", "ret_line(rets_count as nat, args_count as nat, i as nat)")])
fn("generate_store_rets_specialized", S.format("s_store_rets"), [one.format('"stack_ptr: usize"@'), listed(1, "vx_out0", sr, f"typed_param((i - 1) as nat, {sr}@[i - 1])", 1, more='vx_out0@[0]@ =~= "stack_ptr: usize"@,'),
    listed(2, "vx_out1", sr, f"wrapped(i as nat, {sr}@[i])")])
fn("generate_lib_for", """    requires forall|i: int| 0 <= i < signatures@.len() ==> (#[trigger] signatures@[i]).return_types@.len() + signatures@[i].argument_types@.len() < usize::MAX
    ensures r@ =~= lib($p0@), // [C45]
""", ["""invariant program@ == lib($p0@.take(idx0)),
    forall|r: usize, a: usize| #[trigger] processed_signature_counts@.contains((r, a)) <==> counted($p0@.take(idx0), r as nat, a as nat),
    forall|x: RustSignature| #[trigger] processed_signatures@.contains(x) <==> known($p0@.take(idx0), *x.0),
"""], extra="""@lstart 0
    proof { lem_lib($p0@, idx0 - 1); axiom_signature(); assert($p0@.take($p0@.len() as int) =~= $p0@); }
@lafter 0
    proof { assert($p0@.take($p0@.len() as int) =~= $p0@); }
""")
print("""@@include names_core.vu
@@include sets.vu
@@include enum.vu
@@opt loops rlib
@@opt chains
@@opt via rlib vx_sg return_types argument_types generate_*
@@map wastrumentation::wasm_constructs crate::wasm_constructs
@@module rlib """ + SRC + """
@@only rlib
RustSignature
RustSignature*
generate_lib_for
generate_a*
generate_s*
generate_f*
generate_load*
@@derive rlib::RustSignature
@@drop rlib::use*
@@raw vxlib
// Trusted: a String made from a str has the same text
pub broadcast axiom fn axiom_str_text(v: &str) ensures (#[trigger] <String as vstd::std_specs::convert::FromSpec::<&str>>::from_spec(v))@ == v@;
pub broadcast axiom fn axiom_str_ok() ensures #[trigger] <String as vstd::std_specs::convert::FromSpec::<&str>>::obeys_from_spec();
pub trait VxSig { fn vx_sg(&self) -> &crate::wasm_constructs::Signature; }
@@raw rlib
use crate::wasm_constructs::*;
use crate::named::*;
use crate::sets::*;
use crate::rustlib::*;
broadcast use {crate::vxlib::axiom_str_text, crate::vxlib::axiom_str_ok};
// Deref of RustSignature
impl<'a> VxSig for RustSignature<'a> { fn vx_sg(&self) -> (r: &Signature) ensures r == self.0 { self.0 } }
@@raw rustlib
use crate::wasm_constructs::*;
use crate::named::*;
""" + "\n".join(SPEC))
print("".join(FNS))
