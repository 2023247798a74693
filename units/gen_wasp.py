P="crate::ast::pest"
out=[]
w=out.append
w(r'''@@include lib.vu
@@module error wasp-compiler/src/error.rs
@@module ast::pest wasp-compiler/src/ast/pest/mod.rs
@@module ast::wasp wasp-compiler/src/ast/wasp.rs
@@module joinpoints wasp-compiler/src/joinpoints.rs
@@map pest_ast crate::ast::pest
@@map from_pest crate::extern_from_pest
@@map pest crate::extern_pest
@@drop ast::wasp::<DisplayforWasmType>*
@@drop ast::pest::WaspParser
@@drop ast::pest::usepest_ast::*
@@drop ast::pest::usepest_derive::*
@@drop error::usethiserror::*
@@derive ast::wasp::WasmType Clone, Copy
@@raw crate
pub use crate::error::Error;
@@raw extern_from_pest
pub struct Void {}
pub struct ConversionError<T> { pub t: T }
@@raw extern_pest
#[verifier::external_body]
pub struct Span<'a> { s: &'a str }
impl<'a> Span<'a> {
    pub uninterp spec fn text(&self) -> Seq<char>;
    // Trusted: pest::Span::as_str returns the text of the span.
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &'a str) ensures r@ == self.text() { self.s }
}
@@raw joinpoints
impl PartialEq for SpecialisedJoinPoint { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl Eq for SpecialisedJoinPoint {}
impl core::hash::Hash for SpecialisedJoinPoint { #[verifier::external_body] fn hash<H: core::hash::Hasher>(&self, h: &mut H) { unimplemented!() } }
// Trusted: #[derive(Hash, PartialEq, Eq)] of vectors of plain enums is a lawful key.
pub broadcast axiom fn axiom_sjp_key()
    ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<SpecialisedJoinPoint>();
''')
w('''@@fn joinpoints::<DefaultforJoinPoints>::default
@contract
        ensures r.specialized@ == Set::<SpecialisedJoinPoint>::empty(),
            !r.generic, !r.if_then, !r.if_then_else, !r.br_if, !r.br_table, !r.call_pre, !r.call_post,
            !r.call_indirect_pre, !r.call_indirect_post, !r.block_pre, !r.block_post, !r.loop_pre, !r.loop_post, !r.select,
''')
traps=[("TrapBlockPre",[]),("TrapBlockPost",[]),("TrapLoopPre",[]),("TrapLoopPost",[]),
("TrapSelect",["select_formal_condition"]),("TrapCallIndirectPre",["formal_table","formal_index"]),("TrapCallIndirectPost",["formal_table"]),
("TrapIfThen",["branch_formal_condition"]),("TrapIfThenElse",["branch_formal_condition"]),
("TrapBrIf",["branch_formal_condition","branch_formal_label"]),("TrapBrTable",["branch_formal_target","branch_formal_default"]),("TrapCall",["formal_target"])]
w('''@@raw ast::wasp
use crate::ast::pest as pa;
broadcast use {group_strings, vstd::std_specs::hash::group_hash_axioms};

// ---- abstract meaning of one advice, taken from the property statements ----
pub open spec fn wt_of(s: Seq<char>) -> Option<WasmType> {
    if s == "I32"@ { Some(WasmType::I32) }
    else if s == "F32"@ { Some(WasmType::F32) }
    else if s == "I64"@ { Some(WasmType::I64) }
    else if s == "F64"@ { Some(WasmType::F64) }
    else { None }
}
pub open spec fn means_of(a: Seq<char>, r: Seq<char>) -> Option<GenericTarget> {
    if a == "Args"@ && r == "Results"@ { Some(GenericTarget::HighLevel) }
    else if a == "DynArgs"@ && r == "DynResults"@ { Some(GenericTarget::Dynamic) }
    else if a == "MutDynArgs"@ && r == "MutDynResults"@ { Some(GenericTarget::MutableDynamic) }
    else { None }
}
pub open spec fn valid_list(p: Seq<pa::TypedArgument>) -> bool {
    &&& forall|i: int| 0 <= i < p.len() ==> wt_of((#[trigger] p[i]).type_identifier@) is Some
    &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> (#[trigger] p[i]).identifier@ != (#[trigger] p[j]).identifier@
}
pub open spec fn conv_list(p: Seq<pa::TypedArgument>, w: Seq<WasmParameter>) -> bool {
    &&& p.len() == w.len()
    &&& forall|i: int| 0 <= i < p.len() ==> (#[trigger] w[i]).identifier@ == p[i].identifier@
    &&& forall|i: int| 0 <= i < p.len() ==> wt_of(p[i].type_identifier@) == Some((#[trigger] w[i]).identifier_type)
}
pub open spec fn args_of(a: Seq<pa::ApplyFormalArgument>) -> Seq<pa::TypedArgument> { a.map_values(|x: pa::ApplyFormalArgument| x.0) }
pub open spec fn ress_of(a: Seq<pa::ApplyFormalResult>) -> Seq<pa::TypedArgument> { a.map_values(|x: pa::ApplyFormalResult| x.0) }
pub open spec fn disjoint_names(a: Seq<pa::TypedArgument>, r: Seq<pa::TypedArgument>) -> bool {
    forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < r.len() ==> (#[trigger] a[i]).identifier@ != (#[trigger] r[j]).identifier@
}
pub open spec fn valid_spe(a: Seq<pa::TypedArgument>, r: Seq<pa::TypedArgument>) -> bool {
    valid_list(a) && valid_list(r) && disjoint_names(a, r)
}
// C04: which error a rejected signature gives
pub open spec fn is_dup(p: Seq<pa::TypedArgument>, i: int) -> bool { exists|j: int| 0 <= j < i && (#[trigger] p[j]).identifier@ == p[i].identifier@ }
pub open spec fn list_err_at(p: Seq<pa::TypedArgument>, i: int, e: Error) -> bool {
    &&& 0 <= i < p.len() && valid_list(p.take(i))
    &&& if wt_of(p[i].type_identifier@) is None { e is UnsupportedIdentifierType && e->unsupported@ == p[i].type_identifier@ }
        else { is_dup(p, i) && e is DuplicateParameter && e->DuplicateParameter_0@ == p[i].identifier@ }
}
pub open spec fn list_err(p: Seq<pa::TypedArgument>, e: Error) -> bool { exists|i: int| #[trigger] list_err_at(p, i, e) }
pub open spec fn cross_err_at(a: Seq<pa::TypedArgument>, r: Seq<pa::TypedArgument>, i: int, e: Error) -> bool {
    &&& 0 <= i < r.len() && disjoint_names(a, r.take(i))
    &&& exists|j: int| 0 <= j < a.len() && (#[trigger] a[j]).identifier@ == r[i].identifier@
    &&& e is DuplicateArgsRessParameter && e->DuplicateArgsRessParameter_0@ == r[i].identifier@
}
pub open spec fn spe_err(a: Seq<pa::TypedArgument>, r: Seq<pa::TypedArgument>, e: Error) -> bool {
    if !valid_list(a) { list_err(a, e) }
    else if !valid_list(r) { list_err(r, e) }
    else { exists|i: int| #[trigger] cross_err_at(a, r, i, e) }
}
// C05: which error a rejected generic apply gives
pub open spec fn gen_err(g: pa::ApplyGen, e: Error) -> bool {
    if means_of(g.apply_formal_argument.0.type_identifier@, g.apply_formal_result.0.type_identifier@) is None {
        e is IncorrectArgsRessType && e->IncorrectArgsRessType_0@ == g.apply_formal_argument.0.type_identifier@ && e->IncorrectArgsRessType_1@ == g.apply_formal_result.0.type_identifier@
    } else {
        e is NonUniqueParameters && e->NonUniqueParameters_0@.len() == 3 && e->NonUniqueParameters_0@[0]@ == g.apply_formal_wasm_f.0@
            && e->NonUniqueParameters_0@[1]@ == g.apply_formal_argument.0.identifier@ && e->NonUniqueParameters_0@[2]@ == g.apply_formal_result.0.identifier@
    }
}
pub open spec fn hook_err(p: pa::ApplyHookSignature, e: Error) -> bool {
    match p { pa::ApplyHookSignature::Gen(g) => gen_err(g, e), _ => spe_err(spe_args(p), spe_ress(p), e) }
}
pub open spec fn adv_err(p: pa::AdviceDefinition, e: Error) -> bool {
    match p { pa::AdviceDefinition::AdviceTrap(pa::AdviceTrap(pa::TrapSignature::TrapApply(t))) => hook_err(t.apply_hook_signature, e), _ => false }
}
pub open spec fn adv_is_spe(p: pa::AdviceDefinition) -> bool {
    match p { pa::AdviceDefinition::AdviceTrap(pa::AdviceTrap(pa::TrapSignature::TrapApply(t))) => !(t.apply_hook_signature is Gen), _ => false }
}
pub open spec fn prog_err_at(p: Seq<pa::AdviceDefinition>, i: int, e: Error) -> bool {
    &&& 0 <= i < p.len()
    &&& forall|j: int| 0 <= j < i ==> valid_adv_spe(#[trigger] p[j]) && valid_adv_gen(p[j])
    &&& !valid_adv_spe(p[i]) || !valid_adv_gen(p[i])
    &&& adv_err(p[i], e)
}
pub open spec fn spe_args(p: pa::ApplyHookSignature) -> Seq<pa::TypedArgument> {
    match p { pa::ApplyHookSignature::SpeInter(s) => args_of(s.formal_arguments_arguments@),
              pa::ApplyHookSignature::SpeIntro(s) => args_of(s.formal_arguments_arguments@), _ => Seq::empty() }
}
pub open spec fn spe_ress(p: pa::ApplyHookSignature) -> Seq<pa::TypedArgument> {
    match p { pa::ApplyHookSignature::SpeInter(s) => ress_of(s.formal_arguments_results@),
              pa::ApplyHookSignature::SpeIntro(s) => ress_of(s.formal_arguments_results@), _ => Seq::empty() }
}
pub open spec fn valid_gen(g: pa::ApplyGen) -> bool {
    &&& means_of(g.apply_formal_argument.0.type_identifier@, g.apply_formal_result.0.type_identifier@) is Some
    &&& g.apply_formal_wasm_f.0@ != g.apply_formal_argument.0.identifier@
    &&& g.apply_formal_wasm_f.0@ != g.apply_formal_result.0.identifier@
    &&& g.apply_formal_argument.0.identifier@ != g.apply_formal_result.0.identifier@
}
pub open spec fn valid_hook_spe(p: pa::ApplyHookSignature) -> bool {
    !(p is Gen) ==> valid_spe(spe_args(p), spe_ress(p))
}
pub open spec fn valid_hook_gen(p: pa::ApplyHookSignature) -> bool { p is Gen ==> valid_gen(p->Gen_0) }
pub open spec fn valid_adv_spe(p: pa::AdviceDefinition) -> bool {
    match p { pa::AdviceDefinition::AdviceTrap(pa::AdviceTrap(pa::TrapSignature::TrapApply(t))) => valid_hook_spe(t.apply_hook_signature), _ => true }
}
pub open spec fn valid_adv_gen(p: pa::AdviceDefinition) -> bool {
    match p { pa::AdviceDefinition::AdviceTrap(pa::AdviceTrap(pa::TrapSignature::TrapApply(t))) => valid_hook_gen(t.apply_hook_signature), _ => true }
}
// C01: same kind, same names, same guest text
pub open spec fn conv_gen(g: pa::ApplyGen, w: ApplyGen) -> bool {
    &&& w.parameter_function@ == g.apply_formal_wasm_f.0@
    &&& w.parameter_arguments@ == g.apply_formal_argument.0.identifier@
    &&& w.parameter_results@ == g.apply_formal_result.0.identifier@
}
pub open spec fn conv_hook(p: pa::ApplyHookSignature, w: ApplyHookSignature) -> bool {
    match p {
        pa::ApplyHookSignature::Gen(g) => w is Gen && conv_gen(g, w->Gen_0),
        pa::ApplyHookSignature::SpeInter(s) => w is Spe && w->Spe_0.apply_parameter@ == s.apply_formal_wasm_f.0@,
        pa::ApplyHookSignature::SpeIntro(s) => w is Spe && w->Spe_0.apply_parameter@ == s.apply_formal_wasm_f.0@,
    }
}
// C03: parameters
pub open spec fn params_hook(p: pa::ApplyHookSignature, w: ApplyHookSignature) -> bool {
    !(p is Gen) ==> w is Spe && conv_list(spe_args(p), w->Spe_0.parameters_arguments@) && conv_list(spe_ress(p), w->Spe_0.parameters_results@)
}
// C06: declared `Mut` <=> mutable   (the grammar names the Mut form `apply_spe_inter`)
pub open spec fn mut_of(p: pa::ApplyHookSignature) -> bool { p is ${MUTFORM} }
pub open spec fn mut_hook(p: pa::ApplyHookSignature, w: ApplyHookSignature) -> bool {
    ${MUTON} && w is Spe ==> w->Spe_0.mutable_signature == mut_of(p)
}
// C05: generic means
pub open spec fn means_hook(p: pa::ApplyHookSignature, w: ApplyHookSignature) -> bool {
    p is Gen ==> w is Gen && Some(w->Gen_0.generic_means) == means_of(p->Gen_0.apply_formal_argument.0.type_identifier@, p->Gen_0.apply_formal_result.0.type_identifier@)
}
pub open spec fn conv_trap(p: pa::TrapSignature, w: TrapSignature) -> bool {
    match (p, w) {
        (pa::TrapSignature::TrapApply(a), TrapSignature::TrapApply(b)) => conv_hook(a.apply_hook_signature, b.apply_hook_signature) && a.body@ == b.body@,''')
for t,fs in traps:
    extra="" if t!="TrapCall" else " && a.call_qualifier == b.call_qualifier"
    w(f"        (pa::TrapSignature::{t}(a), TrapSignature::{t}(b)) => a.body@ == b.body@"+extra+"".join(f" && a.{f}.0@ == b.{f}.0@" for f in fs)+",")
w('''        _ => false,
    }
}
pub open spec fn apply_rel(p: pa::TrapSignature, w: TrapSignature, f: spec_fn(pa::ApplyHookSignature, ApplyHookSignature) -> bool) -> bool {
    match (p, w) {
        (pa::TrapSignature::TrapApply(a), TrapSignature::TrapApply(b)) => f(a.apply_hook_signature, b.apply_hook_signature),
        (pa::TrapSignature::TrapApply(a), _) => false,
        (_, TrapSignature::TrapApply(a)) => false,
        _ => true,
    }
}
pub open spec fn adv_rel(p: pa::AdviceDefinition, w: AdviceDefinition, f: spec_fn(pa::ApplyHookSignature, ApplyHookSignature) -> bool) -> bool {
    match (p, w) {
        (pa::AdviceDefinition::AdviceTrap(a), AdviceDefinition::AdviceTrap(b)) => apply_rel(a.0, b, f),
        (pa::AdviceDefinition::AdviceTrap(a), AdviceDefinition::AdviceGlobal(_)) => !(a.0 is TrapApply),
        (pa::AdviceDefinition::AdviceGlobal(a), AdviceDefinition::AdviceTrap(b)) => !(b is TrapApply),
        _ => true,
    }
}
pub open spec fn conv_adv(p: pa::AdviceDefinition, w: AdviceDefinition) -> bool {
    match (p, w) {
        (pa::AdviceDefinition::AdviceGlobal(a), AdviceDefinition::AdviceGlobal(b)) => a.0@ == b@,
        (pa::AdviceDefinition::AdviceTrap(a), AdviceDefinition::AdviceTrap(b)) => conv_trap(a.0, b),
        _ => false,
    }
}
pub open spec fn p_rel() -> spec_fn(pa::ApplyHookSignature, ApplyHookSignature) -> bool { |p: pa::ApplyHookSignature, w: ApplyHookSignature| params_hook(p, w) }
pub open spec fn m_rel() -> spec_fn(pa::ApplyHookSignature, ApplyHookSignature) -> bool { |p: pa::ApplyHookSignature, w: ApplyHookSignature| mut_hook(p, w) }
pub open spec fn g_rel() -> spec_fn(pa::ApplyHookSignature, ApplyHookSignature) -> bool { |p: pa::ApplyHookSignature, w: ApplyHookSignature| means_hook(p, w) }

// C07
pub open spec fn q_gen(a: AdviceDefinition) -> bool { a is AdviceTrap && a->AdviceTrap_0 is TrapApply && a->AdviceTrap_0->TrapApply_0.apply_hook_signature is Gen }
pub open spec fn q_if(a: AdviceDefinition) -> bool { a is AdviceTrap && (a->AdviceTrap_0 is TrapIfThen || a->AdviceTrap_0 is TrapIfThenElse || a->AdviceTrap_0 is TrapBrIf || a->AdviceTrap_0 is TrapBrTable || a->AdviceTrap_0 is TrapSelect) }
pub open spec fn q_call(a: AdviceDefinition) -> bool { a is AdviceTrap && (a->AdviceTrap_0 is TrapCall || a->AdviceTrap_0 is TrapCallIndirectPre || a->AdviceTrap_0 is TrapCallIndirectPost) }
''')
w('''@@fn ast::pest::span_into_string
@contract
ensures r@ == $p0.text(), // [C08]
@@fn ast::pest::span_into_qualifier
@contract
requires $p0.text() == "pre"@ || $p0.text() == "post"@,
ensures r is Pre <==> $p0.text() == "pre"@, // [C01]
@start
proof { reveal_strlit("pre"); reveal_strlit("post"); assert("pre"@.len() == 3); assert("post"@.len() == 4); }
@@raw ast::pest
pub open spec fn guest_wrapped(s: Seq<char>, g: Seq<char>) -> bool { s == ">>>GUEST>>>"@ + g + "<<<GUEST<<<"@ }
@@fn ast::pest::drop_guest_delimiter
@contract
requires exists|g: Seq<char>| guest_wrapped($p0@, g),
ensures forall|g: Seq<char>| guest_wrapped($p0@, g) ==> r@ == g, // [C08]
@start
proof {
    let w = choose|g: Seq<char>| guest_wrapped($p0@, g);
    let (p, s) = (">>>GUEST>>>"@, "<<<GUEST<<<"@);
    assert($p0@.subrange(0, p.len() as int) =~= p);
    let rest = $p0@.subrange(p.len() as int, $p0@.len() as int);
    assert(rest =~= w + s);
    assert(rest.subrange(rest.len() - s.len(), rest.len() as int) =~= s);
    assert forall|g: Seq<char>| guest_wrapped($p0@, g) implies rest.subrange(0, rest.len() - s.len()) =~= g by { assert(rest =~= g + s); }
}
''')
for n,q in [("generic_apply","q_gen"),("if","q_if"),("call","q_call")]:
    w(f'''@@fn ast::wasp::Root::instruments_{n}
@contract
ensures r == exists|i: int| 0 <= i < self.0@.len() && {q}(#[trigger] self.0@[i]), // [C07]
@closure 0
ret (b: bool)
ensures b == {q}(*$0),
@cafter 0
proof {{
    assert(forall|i: int| 0 <= i < self.0@.len() ==> *(#[trigger] remc0[i]) == self.0@[i]);
    if exists|i: int| 0 <= i < self.0@.len() && {q}(#[trigger] self.0@[i]) {{
        let i = choose|i: int| 0 <= i < self.0@.len() && {q}(#[trigger] self.0@[i]);
        assert({q}(*remc0[i]));
    }}
}}''')
w('''@@fn ast::wasp::WasmParameter::get_type
@contract
ensures r == self.identifier_type, // [C02]
''')
I="ensures\n"
w(f'''@@fn ast::wasp::<TryFrom<{P}::WaspInput>forRoot>::try_from
@contract
ensures
    r is Ok ==> r->Ok_0.0@.len() == $p0.records.0@.len(), // [C01]
    r is Ok ==> forall|i: int| 0 <= i < r->Ok_0.0@.len() ==> conv_adv($p0.records.0@[i], #[trigger] r->Ok_0.0@[i]), // [C01]
    r is Ok ==> forall|i: int| 0 <= i < r->Ok_0.0@.len() ==> adv_rel($p0.records.0@[i], #[trigger] r->Ok_0.0@[i], p_rel()), // [C03]
    r is Ok ==> forall|i: int| 0 <= i < r->Ok_0.0@.len() ==> adv_rel($p0.records.0@[i], #[trigger] r->Ok_0.0@[i], m_rel()), // [C06]
    r is Ok ==> forall|i: int| 0 <= i < r->Ok_0.0@.len() ==> adv_rel($p0.records.0@[i], #[trigger] r->Ok_0.0@[i], g_rel()), // [C05]
    r is Ok ==> forall|i: int| 0 <= i < $p0.records.0@.len() ==> valid_adv_spe(#[trigger] $p0.records.0@[i]), // [C04]
    r is Ok ==> forall|i: int| 0 <= i < $p0.records.0@.len() ==> valid_adv_gen(#[trigger] $p0.records.0@[i]), // [C05]
    r is Err ==> exists|i: int| #[trigger] prog_err_at($p0.records.0@, i, r->Err_0), // [C01] [C04] [C05]
@loop 0
invariant
    all0 == $p0.records.0@,
    advice_definitions@.len() == idx0,
    forall|i: int| 0 <= i < idx0 ==> conv_adv(all0[i], #[trigger] advice_definitions@[i]), // [C01]
    forall|i: int| 0 <= i < idx0 ==> adv_rel(all0[i], #[trigger] advice_definitions@[i], p_rel()), // [C03]
    forall|i: int| 0 <= i < idx0 ==> adv_rel(all0[i], #[trigger] advice_definitions@[i], m_rel()), // [C06]
    forall|i: int| 0 <= i < idx0 ==> adv_rel(all0[i], #[trigger] advice_definitions@[i], g_rel()), // [C05]
    forall|i: int| 0 <= i < idx0 ==> valid_adv_spe(#[trigger] all0[i]), // [C04]
    forall|i: int| 0 <= i < idx0 ==> valid_adv_gen(#[trigger] all0[i]), // [C05]
@lstart 0
let ghost cur = x0;
proof {{ assert(x0 == all0[idx0 - 1]); assert forall|e: Error| adv_err(x0, e) && (!valid_adv_spe(x0) || !valid_adv_gen(x0)) implies prog_err_at($p0.records.0@, idx0 - 1, e) by {{}} }}
@@fn ast::wasp::<TryFrom<{P}::AdviceDefinition>forAdviceDefinition>::try_from
@contract
ensures
    r is Ok ==> conv_adv($p0, r->Ok_0), // [C01]
    r is Ok ==> adv_rel($p0, r->Ok_0, p_rel()), // [C03]
    r is Ok ==> adv_rel($p0, r->Ok_0, m_rel()), // [C06]
    r is Ok ==> adv_rel($p0, r->Ok_0, g_rel()), // [C05]
    r is Ok ==> valid_adv_spe($p0), // [C04]
    r is Ok ==> valid_adv_gen($p0), // [C05]
    r is Err ==> !valid_adv_spe($p0) || !valid_adv_gen($p0), // [C04] [C05]
    r is Err && adv_is_spe($p0) ==> adv_err($p0, r->Err_0), // [C04]
    r is Err && !adv_is_spe($p0) ==> adv_err($p0, r->Err_0), // [C05]
@@fn ast::wasp::<TryFrom<{P}::TrapSignature>forTrapSignature>::try_from
@contract
ensures
    r is Ok ==> conv_trap($p0, r->Ok_0), // [C01]
    r is Ok ==> apply_rel($p0, r->Ok_0, p_rel()), // [C03]
    r is Ok ==> apply_rel($p0, r->Ok_0, m_rel()), // [C06]
    r is Ok ==> apply_rel($p0, r->Ok_0, g_rel()), // [C05]
    r is Ok && $p0 is TrapApply ==> valid_hook_spe($p0->TrapApply_0.apply_hook_signature), // [C04]
    r is Ok && $p0 is TrapApply ==> valid_hook_gen($p0->TrapApply_0.apply_hook_signature), // [C05]
    r is Err ==> $p0 is TrapApply && (!valid_hook_spe($p0->TrapApply_0.apply_hook_signature) || !valid_hook_gen($p0->TrapApply_0.apply_hook_signature)), // [C04] [C05]
    r is Err && !($p0->TrapApply_0.apply_hook_signature is Gen) ==> hook_err($p0->TrapApply_0.apply_hook_signature, r->Err_0), // [C04]
    r is Err && $p0->TrapApply_0.apply_hook_signature is Gen ==> hook_err($p0->TrapApply_0.apply_hook_signature, r->Err_0), // [C05]
@@fn ast::wasp::<TryFrom<{P}::ApplyHookSignature>forApplyHookSignature>::try_from
@contract
ensures
    r is Ok ==> conv_hook($p0, r->Ok_0), // [C01]
    r is Ok ==> params_hook($p0, r->Ok_0), // [C03]
    r is Ok ==> mut_hook($p0, r->Ok_0), // [C06]
    r is Ok ==> means_hook($p0, r->Ok_0), // [C05]
    r is Ok ==> valid_hook_spe($p0), // [C04]
    r is Ok ==> valid_hook_gen($p0), // [C05]
    r is Err ==> !valid_hook_spe($p0) || !valid_hook_gen($p0), // [C04] [C05]
    r is Err && !($p0 is Gen) ==> hook_err($p0, r->Err_0), // [C04]
    r is Err && $p0 is Gen ==> hook_err($p0, r->Err_0), // [C05]
@@fn ast::wasp::<TryFrom<{P}::ApplyGen>forApplyGen>::try_from
@contract
ensures
    r is Ok ==> conv_gen($p0, r->Ok_0), // [C01]
    r is Ok ==> Some(r->Ok_0.generic_means) == means_of($p0.apply_formal_argument.0.type_identifier@, $p0.apply_formal_result.0.type_identifier@), // [C05]
    r is Ok <==> valid_gen($p0), // [C05]
    r is Err ==> gen_err($p0, r->Err_0), // [C05]
@start
broadcast use group_strings; broadcast use vstd::std_specs::hash::group_hash_axioms;
proof {{
    reveal_strlit("Args"); reveal_strlit("DynArgs"); reveal_strlit("MutDynArgs");
    reveal_strlit("Results"); reveal_strlit("DynResults"); reveal_strlit("MutDynResults");
    lit_len();
}}
''')
w('''@@raw ast::wasp
pub proof fn lit_len()
    ensures "Args"@.len() == 4, "DynArgs"@.len() == 7, "MutDynArgs"@.len() == 10, "Results"@.len() == 7, "DynResults"@.len() == 10, "MutDynResults"@.len() == 13,
      "Results"@ != "DynArgs"@,
{
    reveal_strlit("Args"); reveal_strlit("DynArgs"); reveal_strlit("MutDynArgs");
    reveal_strlit("Results"); reveal_strlit("DynResults"); reveal_strlit("MutDynResults");
    assert("Results"@[0] == 'R'); assert("DynArgs"@[0] == 'D');
}
pub proof fn lit_types()
    ensures "I32"@ != "F32"@, "I32"@ != "I64"@, "I32"@ != "F64"@, "F32"@ != "I64"@, "F32"@ != "F64"@, "I64"@ != "F64"@,
{
    reveal_strlit("I32"); reveal_strlit("F32"); reveal_strlit("I64"); reveal_strlit("F64");
    assert("I32"@[0] == 'I' && "I64"@[0] == 'I' && "F32"@[0] == 'F' && "F64"@[0] == 'F');
    assert("I32"@[1] == '3' && "I64"@[1] == '6' && "F32"@[1] == '3' && "F64"@[1] == '6');
}
''')
for s,m in [("ApplySpeInter","SpeInter"),("ApplySpeIntro","SpeIntro")]:
    w(f'''@@fn ast::wasp::<TryFrom<{P}::{s}>forApplySpe>::try_from
@contract
ensures
    r is Ok ==> r->Ok_0.apply_parameter@ == $p0.apply_formal_wasm_f.0@, // [C01]
    r is Ok ==> conv_list(args_of($p0.formal_arguments_arguments@), r->Ok_0.parameters_arguments@), // [C03]
    r is Ok ==> conv_list(ress_of($p0.formal_arguments_results@), r->Ok_0.parameters_results@), // [C03]
    ${{MUTON}} && r is Ok ==> r->Ok_0.mutable_signature == mut_of(pa::ApplyHookSignature::{m}($p0)), // [C06]
    r is Ok <==> valid_spe(args_of($p0.formal_arguments_arguments@), ress_of($p0.formal_arguments_results@)), // [C04]
    r is Err ==> spe_err(args_of($p0.formal_arguments_arguments@), ress_of($p0.formal_arguments_results@), r->Err_0), // [C04]
@start
proof {{
    let a = args_of($p0.formal_arguments_arguments@);
    let rs = ress_of($p0.formal_arguments_results@);
    assert forall|wa: Seq<WasmParameter>, wr: Seq<WasmParameter>| conv_list(a, wa) && conv_list(rs, wr) && valid_list(a) && valid_list(rs) implies
        (#[trigger] all_distinct(wa, wr)) == disjoint_names(a, rs) by {{ lemma_distinct(a, rs, wa, wr); }}
    assert forall|wa: Seq<WasmParameter>, wr: Seq<WasmParameter>, e: Error| conv_list(a, wa) && conv_list(rs, wr) && valid_list(a) && valid_list(rs) && (#[trigger] dup_err(wa, wr, e)) implies
        spe_err(a, rs, e) by {{ lemma_dup_err(a, rs, wa, wr, e); }}
}}
''')
w(f'''@@raw ast::wasp
pub open spec fn tids(p: Seq<pa::TypedArgument>) -> Seq<Seq<char>> {{ p.map_values(|x: pa::TypedArgument| x.identifier@) }}
pub open spec fn wids(p: Seq<WasmParameter>) -> Seq<Seq<char>> {{ p.map_values(|x: WasmParameter| x.identifier@) }}
pub open spec fn names_are(s: Set<String>, ids: Seq<Seq<char>>) -> bool {{
    forall|x: String| #[trigger] s.contains(x) <==> ids.contains(x@)
}}
pub proof fn lemma_names_step(s: Set<String>, ids: Seq<Seq<char>>, x: String)
    requires names_are(s, ids)
    ensures forall|y: String| y@ == x@ ==> #[trigger] names_are(s.insert(y), ids.push(x@))
{{
    broadcast use group_strings;
    assert forall|y: String| y@ == x@ implies #[trigger] names_are(s.insert(y), ids.push(x@)) by {{
        let t = ids.push(x@);
        assert forall|z: String| #[trigger] s.insert(y).contains(z) <==> t.contains(z@) by {{
            if s.contains(z) {{
                let k = choose|k: int| 0 <= k < ids.len() && ids[k] == z@;
                assert(t[k] == z@);
            }}
            if z == y {{ assert(t[ids.len() as int] == z@); }}
            if t.contains(z@) {{
                let k = choose|k: int| 0 <= k < t.len() && t[k] == z@;
                if k < ids.len() {{ assert(ids[k] == z@); }}
            }}
        }}
    }}
}}
pub proof fn lemma_distinct(a: Seq<pa::TypedArgument>, rs: Seq<pa::TypedArgument>, wa: Seq<WasmParameter>, wr: Seq<WasmParameter>)
    requires conv_list(a, wa), conv_list(rs, wr), valid_list(a), valid_list(rs)
    ensures all_distinct(wa, wr) == disjoint_names(a, rs)
{{
    let c = wa + wr;
    if all_distinct(wa, wr) {{
        assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < rs.len() implies (#[trigger] a[i]).identifier@ != (#[trigger] rs[j]).identifier@ by {{
            assert(c[i].identifier@ != c[wa.len() + j].identifier@);
            assert(wa[i].identifier@ == a[i].identifier@); assert(wr[j].identifier@ == rs[j].identifier@);
        }}
    }}
    if disjoint_names(a, rs) {{
        assert forall|i: int, j: int| 0 <= i < j < c.len() implies (#[trigger] c[i]).identifier@ != (#[trigger] c[j]).identifier@ by {{
            let n = wa.len() as int;
            if j < n {{ assert(wa[i].identifier@ == a[i].identifier@); assert(wa[j].identifier@ == a[j].identifier@); }}
            else if i < n {{ assert(wa[i].identifier@ == a[i].identifier@); assert(wr[j - n].identifier@ == rs[j - n].identifier@); }}
            else {{ assert(wr[i - n].identifier@ == rs[i - n].identifier@); assert(wr[j - n].identifier@ == rs[j - n].identifier@); }}
        }}
    }}
}}
pub open spec fn all_distinct(a: Seq<WasmParameter>, b: Seq<WasmParameter>) -> bool {{
    let c = a + b;
    forall|i: int, j: int| 0 <= i < j < c.len() ==> (#[trigger] c[i]).identifier@ != (#[trigger] c[j]).identifier@
}}
pub open spec fn dup_err_at(c: Seq<WasmParameter>, i: int, e: Error) -> bool {{
    &&& 0 <= i < c.len()
    &&& forall|k: int, j: int| 0 <= k < j < i ==> (#[trigger] c[k]).identifier@ != (#[trigger] c[j]).identifier@
    &&& exists|k: int| 0 <= k < i && (#[trigger] c[k]).identifier@ == c[i].identifier@
    &&& e is DuplicateArgsRessParameter && e->DuplicateArgsRessParameter_0@ == c[i].identifier@
}}
pub open spec fn dup_err(a: Seq<WasmParameter>, b: Seq<WasmParameter>, e: Error) -> bool {{ exists|i: int| #[trigger] dup_err_at(a + b, i, e) }}
pub proof fn lemma_dup_err(a: Seq<pa::TypedArgument>, rs: Seq<pa::TypedArgument>, wa: Seq<WasmParameter>, wr: Seq<WasmParameter>, e: Error)
    requires conv_list(a, wa), conv_list(rs, wr), valid_list(a), valid_list(rs), dup_err(wa, wr, e)
    ensures spe_err(a, rs, e)
{{
    let c = wa + wr;
    let n = wa.len() as int;
    let i = choose|i: int| #[trigger] dup_err_at(c, i, e);
    let k = choose|k: int| 0 <= k < i && (#[trigger] c[k]).identifier@ == c[i].identifier@;
    assert(i >= n) by {{ if i < n {{ assert(wa[i].identifier@ == a[i].identifier@); assert(wa[k].identifier@ == a[k].identifier@); }} }}
    let t = i - n;
    assert(wr[t].identifier@ == rs[t].identifier@);
    assert(k < n) by {{ if k >= n {{ assert(wr[k - n].identifier@ == rs[k - n].identifier@); }} }}
    assert(wa[k].identifier@ == a[k].identifier@);
    assert(a[k].identifier@ == rs[t].identifier@);
    assert forall|x: int, y: int| 0 <= x < a.len() && 0 <= y < rs.take(t).len() implies (#[trigger] a[x]).identifier@ != (#[trigger] rs.take(t)[y]).identifier@ by {{
        assert(c[x].identifier@ != c[n + y].identifier@);
        assert(wa[x].identifier@ == a[x].identifier@); assert(wr[y].identifier@ == rs[y].identifier@);
    }}
    assert(cross_err_at(a, rs, t, e));
}}
@@fn ast::wasp::WasmParameterVec::distinct_arguments
@contract
ensures
    r is Ok <==> all_distinct($p0@, $p1@), // [C04]
    r is Err ==> dup_err($p0@, $p1@, r->Err_0), // [C04]
@start
broadcast use group_strings; broadcast use vstd::std_specs::hash::group_hash_axioms;
@loop 0
invariant
    vxiter_is(all0, $p0@ + $p1@, wrn0),
    names_are(parameters@, wids(($p0@ + $p1@).take(idx0))), // [C04]
    forall|i: int, j: int| 0 <= i < j < idx0 ==> (#[trigger] ($p0@ + $p1@)[i]).identifier@ != (#[trigger] ($p0@ + $p1@)[j]).identifier@, // [C04]
@lbefore 0
proof {{
    let cat = $p0@ + $p1@;
    assert forall|k: int| 0 <= k < all0.len() implies *(#[trigger] all0[k]) == cat[k] by {{}}
}}
@lstart 0
let ghost cat = $p0@ + $p1@;
let ghost set0 = parameters@;
let ghost ids0 = wids(cat.take(idx0 - 1));
let ghost ids1 = wids(cat.take(idx0));
proof {{
    assert(x0 == all0[idx0 - 1]);
    assert(*x0 == cat[idx0 - 1]);
    assert(ids1 =~= ids0.push(x0.identifier@));
    if ids0.contains(x0.identifier@) {{
        let k = choose|k: int| 0 <= k < ids0.len() && ids0[k] == x0.identifier@;
        assert(cat[k].identifier@ == cat[idx0 - 1].identifier@);
        assert(!all_distinct($p0@, $p1@));
        assert(cat[k].identifier@ == cat[idx0 - 1].identifier@);
        assert forall|e: Error| e is DuplicateArgsRessParameter && e->DuplicateArgsRessParameter_0@ == x0.identifier@ implies #[trigger] dup_err($p0@, $p1@, e) by {{ assert(dup_err_at($p0@ + $p1@, idx0 - 1, e)); }}
    }} else {{
        assert forall|k: int| 0 <= k < idx0 - 1 implies (#[trigger] cat[k]).identifier@ != x0.identifier@ by {{ assert(ids0[k] == cat[k].identifier@); }}
    }}
}}
@lend 0
proof {{
    lemma_names_step(set0, ids0, x0.identifier);
}}
@@raw ast::wasp
// the elements an iterator over references will yield are exactly `s` (a prefix of it when the iterator is not run to its end)
pub open spec fn vxiter_is<T>(all: Seq<&T>, s: Seq<T>, w: bool) -> bool {{
    &&& all.len() <= s.len()
    &&& (w ==> all.len() == s.len())
    &&& forall|k: int| 0 <= k < all.len() ==> *(#[trigger] all[k]) == s[k]
}}
@@fn ast::wasp::<TryFrom<Vec<{P}::TypedArgument>>forWasmParameterVec>::try_from
@contract
ensures
    r is Ok ==> conv_list($p0@, r->Ok_0.0@), // [C03]
    r is Ok <==> valid_list($p0@), // [C04]
    r is Err ==> list_err($p0@, r->Err_0), // [C04]
@start
broadcast use group_strings; broadcast use vstd::std_specs::hash::group_hash_axioms;
proof {{ lit_types(); }}
@loop 0
invariant
    all0 == $p0@,
    conv_list($p0@.take(idx0), wasm_type_vec@), // [C03]
    valid_list($p0@.take(idx0)), // [C04]
    names_are(arguments_identifiers@, tids($p0@.take(idx0))), // [C04]
@lstart 0
let ghost set0 = arguments_identifiers@;
let ghost ids0 = tids($p0@.take(idx0 - 1));
let ghost ids1 = tids($p0@.take(idx0));
proof {{
    assert(x0 == $p0@[idx0 - 1]);
    assert($p0@.take(idx0) =~= $p0@.take(idx0 - 1).push(x0));
    assert(ids1 =~= ids0.push(x0.identifier@));
    assert forall|k: String| k@ == x0.identifier@ implies (#[trigger] set0.contains(k)) == ids0.contains(k@) by {{}}
    if ids0.contains(x0.identifier@) {{
        let k = choose|k: int| 0 <= k < ids0.len() && ids0[k] == x0.identifier@;
        assert($p0@[k].identifier@ == $p0@[idx0 - 1].identifier@);
        assert(!valid_list($p0@));
        assert(is_dup($p0@, idx0 - 1));
        assert forall|e: Error| (e is DuplicateParameter && e->DuplicateParameter_0@ == x0.identifier@ && wt_of(x0.type_identifier@) is Some) implies #[trigger] list_err($p0@, e) by {{ assert(list_err_at($p0@, idx0 - 1, e)); }}
    }} else {{
        assert forall|k: int| 0 <= k < idx0 - 1 implies (#[trigger] $p0@[k]).identifier@ != x0.identifier@ by {{ assert(ids0[k] == $p0@[k].identifier@); }}
    }}
    assert forall|e: Error| (e is UnsupportedIdentifierType && e->unsupported@ == x0.type_identifier@ && wt_of(x0.type_identifier@) is None) implies #[trigger] list_err($p0@, e) by {{ assert(list_err_at($p0@, idx0 - 1, e)); }}
}}
@lend 0
proof {{
    lemma_names_step(set0, ids0, x0.identifier);
    assert(names_are(arguments_identifiers@, ids1));
    assert(valid_list($p0@.take(idx0))) by {{
        let t = $p0@.take(idx0);
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).identifier@ != (#[trigger] t[j]).identifier@ by {{
            assert(t[i] == $p0@[i] && t[j] == $p0@[j]);
            if j < idx0 - 1 {{ assert($p0@.take(idx0 - 1)[i] == t[i] && $p0@.take(idx0 - 1)[j] == t[j]); }}
        }}
    }}
}}
@lafter 0
proof {{ assert($p0@.take(idx0) =~= $p0@); }}
''')
for s,g in [("ApplyFormalArgument","args_of"),("ApplyFormalResult","ress_of")]:
    w(f'''@@fn ast::wasp::<TryFrom<Vec<{P}::{s}>>forWasmParameterVec>::try_from
@contract
ensures
    r is Ok ==> conv_list({g}($p0@), r->Ok_0.0@), // [C03]
    r is Ok <==> valid_list({g}($p0@)), // [C04]
    r is Err ==> list_err({g}($p0@), r->Err_0), // [C04]
@start
proof {{
    let a = {g}($p0@);
    assert forall|t: Seq<pa::TypedArgument>| t.len() == a.len() && (forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == a[i]) implies (#[trigger] valid_list(t)) == valid_list(a) && t == a by {{ assert(t =~= a); }}
}}
@closure 0
ret (b: {P}::TypedArgument)
ensures b == $0.0,
@lend 0
''' .replace("@lend 0\n",""))
for f in ["FormalTarget","FormalTable","FormalIndex","BranchFormalCondition","BranchFormalLabel","BranchFormalTarget","BranchFormalDefault","SelectFormalCondition"]:
    w(f'''@@fn ast::wasp::<From<{P}::{f}>for{f}>::from
@contract
ensures r.0@ == $p0.0@, // [C01]''')
kinds=[("generic","q_gen"),("if_then","TrapIfThen"),("if_then_else","TrapIfThenElse"),("br_if","TrapBrIf"),("br_table","TrapBrTable"),
("call_pre","Pre"),("call_post","Post"),("call_indirect_pre","TrapCallIndirectPre"),("call_indirect_post","TrapCallIndirectPost"),
("block_pre","TrapBlockPre"),("block_post","TrapBlockPost"),("loop_pre","TrapLoopPre"),("loop_post","TrapLoopPost"),("select","TrapSelect")]
w('''@@raw joinpoints
use crate::ast::wasp as wa;''')
for k,v in kinds:
    if v=="q_gen": b="wa::q_gen(a)"
    elif v in("Pre","Post"): b=f"a is AdviceTrap && a->AdviceTrap_0 is TrapCall && a->AdviceTrap_0->TrapCall_0.call_qualifier is {v}"
    else: b=f"a is AdviceTrap && a->AdviceTrap_0 is {v}"
    w(f"pub open spec fn jp_{k}(a: wa::AdviceDefinition) -> bool {{ {b} }}")
w('''
pub open spec fn types_of(p: Seq<wa::WasmParameter>) -> Seq<wa::WasmType> { p.map_values(|x: wa::WasmParameter| x.identifier_type) }
pub open spec fn spe_jp(s: wa::ApplySpe, j: SpecialisedJoinPoint) -> bool {
    &&& j.argument_types@ == types_of(s.parameters_arguments@)
    &&& j.result_types@ == types_of(s.parameters_results@)
}
pub open spec fn is_spe(a: wa::AdviceDefinition) -> bool { a is AdviceTrap && a->AdviceTrap_0 is TrapApply && a->AdviceTrap_0->TrapApply_0.apply_hook_signature is Spe }
pub open spec fn jp_spe(a: wa::AdviceDefinition, j: SpecialisedJoinPoint) -> bool { is_spe(a) && spe_jp(a->AdviceTrap_0->TrapApply_0.apply_hook_signature->Spe_0, j) }
#[verifier::opaque]
pub open spec fn some_adv(d: Seq<wa::AdviceDefinition>, f: spec_fn(wa::AdviceDefinition) -> bool) -> bool {
    exists|i: int| 0 <= i < d.len() && f(#[trigger] d[i])
}
pub proof fn lemma_some_push(d: Seq<wa::AdviceDefinition>, a: wa::AdviceDefinition, f: spec_fn(wa::AdviceDefinition) -> bool)
    ensures some_adv(d.push(a), f) == (some_adv(d, f) || f(a))
{
    reveal(some_adv);
    let e = d.push(a);
    if some_adv(d, f) { let i = choose|i: int| 0 <= i < d.len() && f(#[trigger] d[i]); assert(f(e[i])); }
    if f(a) { assert(f(e[d.len() as int])); }
    if some_adv(e, f) { let i = choose|i: int| 0 <= i < e.len() && f(#[trigger] e[i]); if i < d.len() { assert(f(d[i])); } }
}
// the join points used by the advices of `d`
pub open spec fn jps(d: Seq<wa::AdviceDefinition>, r: JoinPoints) -> bool {''')
for k,v in kinds:
    w(f"    &&& r.{k} == some_adv(d, |a: wa::AdviceDefinition| jp_{k}(a))")
w('''    &&& jps_spec(d, r)
}
pub open spec fn jps_spec(d: Seq<wa::AdviceDefinition>, r: JoinPoints) -> bool {
    &&& forall|j: SpecialisedJoinPoint| #[trigger] r.specialized@.contains(j) ==> exists|i: int| 0 <= i < d.len() && jp_spe(#[trigger] d[i], j)
    &&& forall|i: int| 0 <= i < d.len() && is_spe(#[trigger] d[i]) ==> exists|j: SpecialisedJoinPoint| r.specialized@.contains(j) && #[trigger] jp_spe(d[i], j)
}
pub open spec fn hook_jp(h: wa::ApplyHookSignature, j: JoinPoint) -> bool {
    match h { wa::ApplyHookSignature::Gen(_) => j is Generic, wa::ApplyHookSignature::Spe(s) => j is Specialised && spe_jp(s, j->Specialised_0) }
}
pub open spec fn trap_jp(t: wa::TrapSignature, j: JoinPoint) -> bool {
    match t {
        wa::TrapSignature::TrapApply(a) => hook_jp(a.apply_hook_signature, j),
        wa::TrapSignature::TrapCall(c) => if c.call_qualifier is Pre { j is CallPre } else { j is CallPost },
        wa::TrapSignature::TrapBlockPre(_) => j is BlockPre,
        wa::TrapSignature::TrapBlockPost(_) => j is BlockPost,
        wa::TrapSignature::TrapLoopPre(_) => j is LoopPre,
        wa::TrapSignature::TrapLoopPost(_) => j is LoopPost,
        wa::TrapSignature::TrapSelect(_) => j is Select,
        wa::TrapSignature::TrapCallIndirectPre(_) => j is CallIndirectPre,
        wa::TrapSignature::TrapCallIndirectPost(_) => j is CallIndirectPost,
        wa::TrapSignature::TrapIfThen(_) => j is IfThen,
        wa::TrapSignature::TrapIfThenElse(_) => j is IfThenElse,
        wa::TrapSignature::TrapBrIf(_) => j is BrIf,
        wa::TrapSignature::TrapBrTable(_) => j is TrapBrTable,
    }
}
// what `include` adds
pub open spec fn included(o: JoinPoints, j: JoinPoint, n: JoinPoints) -> bool {''')
jpn={"generic":"Generic","if_then":"IfThen","if_then_else":"IfThenElse","br_if":"BrIf","br_table":"TrapBrTable","call_pre":"CallPre","call_post":"CallPost","call_indirect_pre":"CallIndirectPre","call_indirect_post":"CallIndirectPost","block_pre":"BlockPre","block_post":"BlockPost","loop_pre":"LoopPre","loop_post":"LoopPost","select":"Select"}
for k,_ in kinds:
    w(f"    &&& n.{k} == (o.{k} || j is {jpn[k]})")
w('''    &&& n.specialized@ == if j is Specialised { o.specialized@.insert(j->Specialised_0) } else { o.specialized@ }
}
@@fn joinpoints::JoinPoints::include
@contract
ensures
INCLUDED
    (*final(self)).specialized@ == (if $p1 is Specialised { old(self).specialized@.insert($p1->Specialised_0) } else { old(self).specialized@ }), // [C02]
@start
broadcast use axiom_sjp_key; broadcast use vstd::std_specs::hash::group_hash_axioms;
@@fn joinpoints::Root::join_points
@contract
ensures jps(self.0@, r), // [C02]
@lbefore 0
proof { reveal(some_adv); assert(self.0@.take(0).len() == 0); assert(jps(self.0@.take(0), join_points)); }
@loop 0
invariant
    all0.len() == self.0@.len(),
    forall|k: int| 0 <= k < all0.len() ==> *(#[trigger] all0[k]) == self.0@[k],
    jps(self.0@.take(idx0), join_points), // [C02]
@lstart 0
let ghost jp0 = join_points;
let ghost d0 = self.0@.take(idx0 - 1);
let ghost d1 = self.0@.take(idx0);
proof { assert(*x0 == self.0@[idx0 - 1]); assert(d1 =~= d0.push(*x0)); assert(d1[idx0 - 1] == *x0); assert(forall|i: int| 0 <= i < idx0 - 1 ==> d0[i] == d1[i]);
    assert(jps(d0, jp0));
}
@lend 0
proof { jps_step(d0, *x0, d1, jp0, join_points); }
@lafter 0
proof { assert(self.0@.take(idx0) =~= self.0@); }
@@raw joinpoints
pub open spec fn adv_included(o: JoinPoints, a: wa::AdviceDefinition, n: JoinPoints) -> bool {
    match a {
        wa::AdviceDefinition::AdviceGlobal(_) => o == n,
        wa::AdviceDefinition::AdviceTrap(t) => exists|j: JoinPoint| #[trigger] trap_jp(t, j) && included(o, j, n),
    }
}
pub proof fn jps_spec_step(d0: Seq<wa::AdviceDefinition>, a: wa::AdviceDefinition, d1: Seq<wa::AdviceDefinition>, o: JoinPoints, n: JoinPoints)
    requires jps_spec(d0, o), adv_included(o, a, n), d1 == d0.push(a)
    ensures jps_spec(d1, n)
{
    let l = d0.len() as int;
    assert(d1[l] == a);
    assert forall|i: int| 0 <= i < l implies d1[i] == d0[i] by {}
    if a is AdviceTrap {
        let j = choose|j: JoinPoint| #[trigger] trap_jp(a->AdviceTrap_0, j) && included(o, j, n);
        assert forall|x: SpecialisedJoinPoint| #[trigger] n.specialized@.contains(x) implies exists|i: int| 0 <= i < d1.len() && jp_spe(#[trigger] d1[i], x) by {
            if o.specialized@.contains(x) {
                let i = choose|i: int| 0 <= i < d0.len() && jp_spe(#[trigger] d0[i], x);
                assert(jp_spe(d1[i], x));
            } else { assert(jp_spe(d1[l], x)); }
        }
        assert forall|i: int| 0 <= i < d1.len() && is_spe(#[trigger] d1[i]) implies exists|x: SpecialisedJoinPoint| n.specialized@.contains(x) && #[trigger] jp_spe(d1[i], x) by {
            if i < l {
                assert(is_spe(d0[i]));
                let x = choose|x: SpecialisedJoinPoint| o.specialized@.contains(x) && #[trigger] jp_spe(d0[i], x);
                assert(n.specialized@.contains(x) && jp_spe(d1[i], x));
            } else { assert(n.specialized@.contains(j->Specialised_0) && jp_spe(d1[i], j->Specialised_0)); }
        }
    } else {
        assert forall|x: SpecialisedJoinPoint| #[trigger] n.specialized@.contains(x) implies exists|i: int| 0 <= i < d1.len() && jp_spe(#[trigger] d1[i], x) by {
            let i = choose|i: int| 0 <= i < d0.len() && jp_spe(#[trigger] d0[i], x);
            assert(jp_spe(d1[i], x));
        }
        assert forall|i: int| 0 <= i < d1.len() && is_spe(#[trigger] d1[i]) implies exists|x: SpecialisedJoinPoint| n.specialized@.contains(x) && #[trigger] jp_spe(d1[i], x) by {
            assert(is_spe(d0[i]));
            let x = choose|x: SpecialisedJoinPoint| o.specialized@.contains(x) && #[trigger] jp_spe(d0[i], x);
            assert(jp_spe(d1[i], x));
        }
    }
}
pub proof fn jps_step(d0: Seq<wa::AdviceDefinition>, a: wa::AdviceDefinition, d1: Seq<wa::AdviceDefinition>, o: JoinPoints, n: JoinPoints)
    requires jps(d0, o), adv_included(o, a, n), d1 == d0.push(a)
    ensures jps(d1, n)
{
    jps_spec_step(d0, a, d1, o, n);''')
for k,_ in kinds:
    w(f"    lemma_some_push(d0, a, |a: wa::AdviceDefinition| jp_{k}(a)); assert(n.{k} == some_adv(d1, |a: wa::AdviceDefinition| jp_{k}(a)));")
w('''}
@@fn joinpoints::TrapSignature::join_point
@contract
ensures trap_jp(*self, r), // [C02]
@@fn joinpoints::ApplyHookSignature::join_point
@contract
ensures hook_jp(*self, r), // [C02]
@@fn joinpoints::ApplySpe::join_point
@contract
ensures spe_jp(*self, r), // [C02]
@closure 0
types &Vec<WasmParameter>
ret (v: Vec<WasmType>)
ensures v@ =~= types_of($0@),
''')
text="\n".join(out)+"\n"
text=text.replace("INCLUDED\n","".join(f"    (*final(self)).{k} == (old(self).{k} || $p1 is {jpn[k]}), // [C02]\n" for k,_ in kinds))
open("/verif/units/wasp.vu","w").write(text)
