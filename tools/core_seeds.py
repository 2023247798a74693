W = "wastrumentation/src/"
# ---- C20: flattening / nesting
seed("K20-else-arm", "C20", [(W + "parse_nesting/typed_high_level_body.rs",
"""            Instr::If(type_, then, Some(else_)) => {
                result.push(wasabi_wasm::Instr::If(type_));
                result.extend(from_recurse(then));
                result.push(wasabi_wasm::Instr::Else);
                result.extend(from_recurse(else_));
                result.push(wasabi_wasm::Instr::End);
            }""",
"""            Instr::If(type_, then, Some(else_)) => {
                result.push(wasabi_wasm::Instr::If(type_));
                result.extend(from_recurse(then));
                if !else_.is_empty() {
                    result.push(wasabi_wasm::Instr::Else);
                    result.extend(from_recurse(else_));
                }
                result.push(wasabi_wasm::Instr::End);
            }""")],
"a conditional whose else arm is written but has no instruction",
"an empty else arm is dropped when a body is flattened, so nesting and flattening does not give the original body back (the indices of all later instructions shift)",
r'''
pub fn main() {
    let b = vec![i32c(0), Instr::If(ft(&[], &[])), Instr::Nop, Instr::Else, Instr::End, Instr::Nop, Instr::End];
    let m = one(ft(&[], &[]), &[], b.clone());
    let got = body(&run(&m, &AnalysisInterface::default(), None), 0);
    assert_eq!(got, b);
}
''')
# ---- C21: locations
seed("K21-else-location", "C21", [(W + "parse_nesting/typed_high_level_body.rs",
"""                wasabi_wasm::Instr::Else => match entered_stack.pop() {
                    Some(Entered {
                        funct_index,
                        index,
                        type_,
                        entered_type: EnteredType::IfStart,
                    }) => {
                        let then_body = current_body.clone();
                        entered_stack.push(Entered {
                            funct_index,
                            index,
""",
"""                wasabi_wasm::Instr::Else => match entered_stack.pop() {
                    Some(Entered {
                        funct_index,
                        index: _,
                        type_,
                        entered_type: EnteredType::IfStart,
                    }) => {
                        let then_body = current_body.clone();
                        entered_stack.push(Entered {
                            funct_index,
                            index: *index,
""")],
"a conditional with an else arm under a hook that reports its location",
"a conditional with an else arm carries the position of its else instead of the position of the conditional itself",
r'''
pub fn main() {
    let b = vec![Instr::Nop, i32c(0), Instr::If(ft(&[], &[])), Instr::Nop, Instr::Nop, Instr::Else, Instr::Nop, Instr::End, Instr::End];
    let m = one(ft(&[], &[]), &[], b);
    let mut a = AnalysisInterface::default();
    a.if_then_else_trap = Some(AnalysisInterface::interface_if_then_else());
    let r = run(&m, &a, None);
    let h = import(&r, &a.if_then_else_trap.unwrap().name.to_string());
    let g = body(&r, 0);
    let c = calls(&g, h);
    assert_eq!(c.len(), 1);
    assert_eq!(g[c[0] - 1], i64c(2));
    assert_eq!(g[c[0] - 2], i64c(0));
}
''')
# ---- C22: location
seed("K22-location", "C22", [(W + "parse_nesting/typed_high_level_body.rs",
"""            self.instrument_with(Instr::Const(Val::I64(self.instr_index.try_into().unwrap()))),""",
"""            self.instrument_with(Instr::Const(Val::I64((self.instr_index as u16).into()))),""")],
"an observed instruction at position 65536 or later of its function",
"positions past 65535 are reported modulo 65536",
r'''
pub fn main() {
    let mut b = vec![Instr::Nop; 65_540];
    b.push(Instr::Return);
    b.push(Instr::End);
    let m = one(ft(&[], &[]), &[], b);
    let mut a = AnalysisInterface::default();
    a.return_trap = Some(AnalysisInterface::interface_return());
    let r = run(&m, &a, None);
    let h = import(&r, &a.return_trap.unwrap().name.to_string());
    let g = body(&r, 0);
    let c = calls(&g, h);
    assert_eq!(c.len(), 1);
    assert_eq!(g[c[0] - 1], i64c(65_540));
}
''')
# ---- C23: injected marks
seed("K23-mark-lost", "C23", [(W + "parse_nesting/typed_high_level_body.rs",
"""        // Do not assert on instrumentation_instruction
        Self {
            funct_index: self.funct_index,
            instr_index: self.instr_index,
            instr,
            type_: self.type_.clone(),

            instrumentation_instruction: self.instrumentation_instruction,""",
"""        // Do not assert on instrumentation_instruction
        let nested = matches!(
            instr,
            Instr::Block(..) | Instr::Loop(..) | Instr::If(..)
        );
        Self {
            funct_index: self.funct_index,
            instr_index: self.instr_index,
            instr,
            type_: self.type_.clone(),

            instrumentation_instruction: self.instrumentation_instruction && !nested,""")],
"three hooks: the exit hook of else-less conditionals (which injects a conditional of its own), any hook after it, then a hook on conditionals with an else arm",
"a conditional that one hook injected is taken for an original one by later hooks, which then observe injected code",
r'''
pub fn main() {
    let b = vec![i32c(0), Instr::If(ft(&[], &[])), Instr::Nop, Instr::End, Instr::End];
    let m = one(ft(&[], &[]), &[], b);
    let mut a = AnalysisInterface::default();
    a.if_then_post_trap = Some(AnalysisInterface::interface_if_then_post());
    a.if_then_else_trap = Some(AnalysisInterface::interface_if_then_else());
    a.if_then_else_post_trap = Some(AnalysisInterface::interface_if_then_else_post());
    let r = run(&m, &a, None);
    let g = body(&r, 0);
    assert_eq!(calls(&g, import(&r, &a.if_then_post_trap.unwrap().name.to_string())).len(), 2);
    assert_eq!(calls(&g, import(&r, &a.if_then_else_trap.unwrap().name.to_string())).len(), 0);
    assert_eq!(calls(&g, import(&r, &a.if_then_else_post_trap.unwrap().name.to_string())).len(), 0);
}
''')
# ---- C25
seed("K25-loop-exit", "C25", [(W + "instrument/block_loop.rs",
"""                    let mut injected_body = transform(body, target);
                    // append to rest of body
                    injected_body.extend_from_slice(&typed_instr.to_trap_call(&trap_idx));
                    // STACK: [type_in]
                    result.push(typed_instr.place_original(Instr::Loop(*type_, injected_body)));""",
"""                    let mut injected_body = transform(body, target);
                    // append to rest of body, unless its end cannot be reached
                    if !matches!(
                        body.last().map(|last| &last.instr),
                        Some(Instr::Br(_) | Instr::BrTable { .. } | Instr::Return)
                    ) {
                        injected_body.extend_from_slice(&typed_instr.to_trap_call(&trap_idx));
                    } else {
                        let at = injected_body.len() - 1;
                        injected_body.splice(at..at, typed_instr.to_trap_call(&trap_idx));
                    }
                    // STACK: [type_in]
                    result.push(typed_instr.place_original(Instr::Loop(*type_, injected_body)));""")],
"a loop whose last instruction is an unconditional branch, table branch or return",
"the exit hook of such a loop is called before its last instruction instead of last",
r'''
pub fn main() {
    let b = vec![Instr::Loop(ft(&[], &[])), Instr::Nop, Instr::Br(0_u32.into()), Instr::End, Instr::End];
    let m = one(ft(&[], &[]), &[], b);
    let mut a = AnalysisInterface::default();
    a.post_loop = Some(AnalysisInterface::interface_post_loop());
    let r = run(&m, &a, None);
    let h = import(&r, &a.post_loop.unwrap().name.to_string());
    let g = body(&r, 0);
    let c = calls(&g, h);
    assert_eq!(c.len(), 1);
    assert_eq!(g[c[0] + 1], Instr::End, "{g:?}");
}
''')
# ---- C26
seed("K26-nested-else", "C26", [(W + "instrument/branch_if.rs",
"""                    // Inject into else-body
                    let mut injected_else_body = transform(else_, target, module);""",
"""                    // Inject into else-body
                    let mut injected_else_body = match &else_[..] {
                        // `else if`: one exit of the whole chain is enough
                        [TypedHighLevelInstr {
                            instr: Instr::If(..),
                            ..
                        }] => else_.clone(),
                        _ => transform(else_, target, module),
                    };""")],
"a conditional whose else arm consists of exactly one conditional with two arms",
"the exit hook is not called in the arms of the inner conditional",
r'''
pub fn main() {
    let t = ft(&[], &[]);
    let e = ft(&[I], &[]);
    let b = vec![i32c(0), i32c(1), Instr::If(e), Instr::Drop, Instr::Else, Instr::If(t), Instr::Nop, Instr::Else, Instr::Nop, Instr::End, Instr::End, Instr::End];
    let m = one(t, &[], b);
    let mut a = AnalysisInterface::default();
    a.if_then_else_post_trap = Some(AnalysisInterface::interface_if_then_else_post());
    let r = run(&m, &a, None);
    let h = import(&r, &a.if_then_else_post_trap.unwrap().name.to_string());
    let g = body(&r, 0);
    assert_eq!(calls(&g, h).len(), 4, "{g:?}");
}
''')
# ---- C27
seed("K27-indirect-table", "C27", [(W + "instrument/function_call_indirect.rs",
"""                        // STACK: [type_out]
                        typed_instr.instrument_with(Instr::Const(Val::I32(
                            i32::try_from(table_index.to_u32()).unwrap(),
                        ))),
                        // STACK: [type_out, table_index]
                    ]);""",
"""                        // STACK: [type_out]
                        typed_instr.instrument_with(Instr::Const(Val::I32(
                            i32::from(table_index.to_u32() as u8),
                        ))),
                        // STACK: [type_out, table_index]
                    ]);""")],
"an indirect call through a table with index 256 or more",
"the hook after an indirect call is given the table index modulo 256",
r'''
pub fn main() {
    let t = ft(&[], &[]);
    let b = vec![i32c(0), Instr::CallIndirect(t, 300_u32.into()), Instr::End];
    let mut m = one(t, &[], b);
    for _ in 0..301 { m.tables.push(Table { limits: Limits { initial_size: 1, max_size: None }, import: None, ref_type: RefType::FuncRef, export: vec![] }); }
    let mut a = AnalysisInterface::default();
    a.post_trap_call_indirect = Some(AnalysisInterface::interface_call_indirect_post());
    let r = run(&m, &a, None);
    let h = import(&r, &a.post_trap_call_indirect.unwrap().name.to_string());
    let g = body(&r, 0);
    let c = calls(&g, h);
    assert_eq!(c.len(), 1);
    assert_eq!(g[c[0] - 3], i32c(300));
}
''')
# ---- C29
seed("K29-offset", "C29", [(W + "instrument/memory.rs",
"""                                    // [i32: index to write to, F32: value to write to] // FIXME: not sure if TOS index or value
                                    typed_instr.instrument_with(Instr::Const(Val::I64((*offset).into()))),""",
"""                                    // [i32: index to write to, F32: value to write to] // FIXME: not sure if TOS index or value
                                    typed_instr.instrument_with(Instr::Const(Val::I64((*offset as i32).into()))),""")],
"a store with an offset of 2^31 or more",
"such an offset reaches the store hook as a negative number",
r'''
pub fn main() {
    let s = StoreOp::I32Store;
    let b = vec![i32c(0), i32c(1), Instr::Store(s, Memarg { offset: 0x9000_0000, ..Memarg::default(s) }), Instr::End];
    let mut m = one(ft(&[], &[]), &[], b);
    m.memories.push(Memory { limits: Limits { initial_size: 1, max_size: None }, import: None, export: vec![] });
    let mut a = AnalysisInterface::default();
    a.i32_store = Some(AnalysisInterface::interface_i32_store());
    let r = run(&m, &a, None);
    let h = import(&r, &a.i32_store.unwrap().name.to_string());
    let g = body(&r, 0);
    let c = calls(&g, h);
    assert_eq!(c.len(), 1);
    assert_eq!(g[c[0] - 4], i64c(0x9000_0000));
}
''')
# ---- C31
seed("K31-same-entries", "C31", [(W + "instrument/branch_if/generate_branch_table.rs",
"""        if self.table.len() == 1 {""",
"""        // every entry the same: one test of the index is enough
        if self.table.iter().all(|label| *label == self.table[0]) {""")],
"a branch table with two or more entries that are all the same and differ from the default",
"an index of 1 or more that is inside such a table is reported as leading to the default",
r'''
/// runs a helper made of blocks, one table branch and returns
fn helper(b: &[Instr], arg: i32) -> (i32, i32) {
    let mut ends = vec![0; b.len()];
    let mut open = vec![];
    for (k, i) in b.iter().enumerate() { match i { Instr::Block(_) | Instr::If(_) => open.push(k), Instr::End => if let Some(o) = open.pop() { ends[o] = k }, _ => () } }
    let (mut k, mut frames, mut stack): (usize, Vec<usize>, Vec<i32>) = (0, vec![], vec![]);
    while k < b.len() {
        match &b[k] {
            Instr::Block(_) => frames.push(k),
            Instr::End => { frames.pop(); }
            Instr::Local(LocalOp::Get, _) => stack.push(arg),
            Instr::Unary(UnaryOp::I32Eqz) => { let v = stack.pop().unwrap(); stack.push((v == 0) as i32) }
            Instr::If(_) => { frames.push(k); if stack.pop().unwrap() == 0 { k += 1; while b[k] != Instr::Else { k += 1 } } }
            Instr::Else => { k = ends[frames.pop().unwrap()]; }
            Instr::Const(Val::I32(v)) => stack.push(*v),
            Instr::Return => break,
            Instr::BrTable { table, default } => {
                let l = table.get(stack.pop().unwrap() as u32 as usize).unwrap_or(default).to_usize();
                if l >= frames.len() { break }
                for _ in 0..l { frames.pop(); }
                k = ends[frames.pop().unwrap()];
            }
            i => panic!("{i:?}"),
        }
        k += 1;
    }
    let v = stack.pop().unwrap();
    (stack.pop().unwrap(), v)
}
pub fn main() {
    let t = ft(&[], &[]);
    let l = |n: u32| Label::from(n);
    let (table, default) = (vec![l(0), l(0), l(0)], l(1));
    let b = vec![Instr::Block(t), Instr::Block(t), i32c(0), Instr::BrTable { table: table.clone().into(), default }, Instr::End, Instr::End, Instr::End];
    let m = one(t, &[], b);
    let mut a = AnalysisInterface::default();
    a.br_table_trap = Some(AnalysisInterface::interface_br_table());
    let r = run(&m, &a, None);
    let i = body(&r, 0).iter().find_map(|i| match i { Instr::Call(f) if r.function(*f).code().is_some() => Some(f.to_u32()), _ => None }).expect("a call of the helper");
    let h = body(&r, i);
    for k in [0, 1, 2, 3, 4, 5, -1] {
        let want = table.get(k as u32 as usize).unwrap_or(&default).to_u32() as i32;
        assert_eq!(helper(&h, k), (k, want), "entry {k}");
    }
}
''')
# ---- C32
seed("K32-narrow-load", "C32", [(W + "instrument/memory.rs",
"""        ("instrumented_base_load_i64_32U", I64Load32U, ValType::I64),""",
"""        ("instrumented_base_load_i64_32U", I64Load32S, ValType::I64),""")],
"an analysis that performs an unsigned 32-bit load of a negative word through the helper",
"the helper for unsigned 32-bit loads sign-extends",
r'''
pub fn main() {
    let mut m = one(ft(&[], &[]), &[], vec![Instr::End]);
    m.memories.push(Memory { limits: Limits { initial_size: 1, max_size: None }, import: None, export: vec![] });
    let r = run(&m, &AnalysisInterface::default(), None);
    for (n, o) in [("instrumented_base_load_i64_32U", LoadOp::I64Load32U), ("instrumented_base_load_i64_32S", LoadOp::I64Load32S)] {
        let f = exported(&r, n);
        assert!(f.code().unwrap().body.iter().any(|i| matches!(i, Instr::Load(l, _) if *l == o)), "{n}");
    }
}
''')
# ---- C34
seed("K34-name-separator", "C34", [(W + "wasm_constructs/mod.rs",
"""        let prefix = format!("{name}_{signature_side}{index}");
        self.generate_name(&prefix)""",
"""        let of_one_kind = match signature_side {
            SignatureSide::Return => self.return_types.len() <= 1,
            SignatureSide::Argument => self.argument_types.len() <= 1,
        };
        let prefix = if of_one_kind {
            format!("{name}_{signature_side}")
        } else {
            format!("{name}_{signature_side}{index}")
        };
        self.generate_name(&prefix)""")],
"asking for the names of two indices on a side with at most one value",
"two different indices give the same support function name",
r'''
use crate::wasm_constructs::*;
pub fn main() {
    let s = Signature { return_types: vec![crate::wasm_constructs::WasmType::I32], argument_types: vec![crate::wasm_constructs::WasmType::F64] };
    let n: Vec<String> = (0..3).flat_map(|i| [s.generate_load_name(SignatureSide::Return, i), s.generate_load_name(SignatureSide::Argument, i), s.generate_store_name(SignatureSide::Argument, i)]).collect();
    let u: std::collections::HashSet<&String> = n.iter().collect();
    assert_eq!(u.len(), n.len(), "{n:?}");
}
''')
# ---- C37
seed("K37-mutual", "C37", [("wastrumentation-static-analysis/src/lib.rs",
"""                match is_pure(index, then, analysis_target_functions) {
                    PurityEstimate::Unknown => return PurityEstimate::Unknown,
                    PurityEstimate::Impure => return PurityEstimate::Impure,
                    PurityEstimate::Pure => (), // continue, does same hold for `else` ?
                };
                match is_pure(index, else_, analysis_target_functions) {
                    PurityEstimate::Unknown => return PurityEstimate::Unknown,
                    PurityEstimate::Impure => return PurityEstimate::Impure,
                    PurityEstimate::Pure => continue,
                };""",
"""                let then = is_pure(index, then, analysis_target_functions);
                let else_ = is_pure(index, else_, analysis_target_functions);
                match (then, else_) {
                    (PurityEstimate::Impure, _) => return PurityEstimate::Impure,
                    (PurityEstimate::Unknown, PurityEstimate::Impure) => {
                        return PurityEstimate::Impure
                    }
                    (PurityEstimate::Unknown, PurityEstimate::Unknown) => {
                        return PurityEstimate::Unknown
                    }
                    // one arm is known, the other decides
                    (PurityEstimate::Unknown, PurityEstimate::Pure)
                    | (PurityEstimate::Pure, _) => continue,
                };""")],
"a conditional whose else arm touches shared state while its then arm does not",
"the else arm of a conditional is not considered when the then arm is harmless, so a function that writes memory is reported as immutable",
"pub fn main() {}\n",
main=r'''use wasabi_wasm::*;
fn main() {
    let t = FunctionType::new(&[], &[]);
    let c = |n| Instr::Const(Val::I32(n));
    let mut m = Module::new();
    m.memories.push(Memory { limits: Limits { initial_size: 1, max_size: None }, import: None, export: vec![] });
    m.add_function(t, vec![], vec![c(0), Instr::If(t), Instr::Nop, Instr::Else, c(0), c(1), Instr::Store(StoreOp::I32Store, Memarg::default(StoreOp::I32Store)), Instr::End, Instr::End]);
    m.add_function(t, vec![], vec![Instr::Nop, Instr::End]);
    let p = wastrumentation_static_analysis::immutable_functions(&m);
    assert!(!p.contains(&0));
    assert!(p.contains(&1));
}
''')
# ---- C40
seed("K40-tee", "C40", [(W + "instrument/mod.rs",
"""        (local_tee_f64, (|i| Box::new(LocalTeeF64(i)))),""",
"""        (local_tee_f64, (|i| Box::new(LocalSetF64(i)))),""")],
"an analysis with the hook on writes of 64-bit float locals that keep the value",
"that hook is wired to the plain writes of 64-bit float locals",
r'''
pub fn main() {
    let x = |o| Instr::Local(o, 0_u32.into());
    let b = vec![Instr::Const(Val::F64(F64(0))), x(LocalOp::Tee), x(LocalOp::Set), Instr::End];
    let m = one(ft(&[], &[]), &[D], b);
    let mut a = AnalysisInterface::default();
    a.local_tee_f64 = Some(AnalysisInterface::interface_local_tee_f64());
    let r = run(&m, &a, None);
    let h = import(&r, &a.local_tee_f64.unwrap().name.to_string());
    let g = body(&r, 0);
    let c = calls(&g, h);
    assert_eq!(c.len(), 1);
    assert_eq!(g[c[0] + 1], x(LocalOp::Tee));
}
''')
# ---- C41
seed("K41-locals", "C41", [(W + "instrument/function_application.rs",
"""                    .locals()
                    .map(|(_, l)| l.type_)
                    .collect();""",
"""                    .locals()
                    .map(|(_, l)| l.type_)
                    .filter(|t| !matches!(t, ValType::Ref(_)))
                    .collect();""")],
"an intercepted function that declares a local of a reference type before other locals",
"the saved copy of the function lacks its reference locals, so every later local has another index",
r'''
pub fn main() {
    let b = vec![Instr::Local(LocalOp::Get, 1_u32.into()), Instr::Drop, Instr::End];
    let m = one(ft(&[], &[]), &[ValType::Ref(RefType::ExternRef), L], b.clone());
    let mut a = AnalysisInterface::default();
    a.generic_interface = Some(AnalysisInterface::interface_generic_apply());
    let r = run(&m, &a, None);
    let want: Vec<ValType> = m.function(0_u32.into()).code().unwrap().locals.iter().map(|l| l.type_).collect();
    assert!(r.functions.iter().skip(1).any(|f| f.code().is_some_and(|c| c.body == b && c.locals.iter().map(|l| l.type_).collect::<Vec<_>>() == want)), "no copy with the locals {want:?}");
}
''')
seed("K41-present", "C41", [(W + "instrument/function_application.rs",
"""        let target_code_is_present = module.function(*function_index).code().is_some();
        let uninstrumented_index""", """        let uninstrumented_index"""),
(W + "instrument/function_application.rs",
"""        let code_present_serialized = Const(Val::I32(if target_code_is_present {""",
"""        let target_code_is_present = original_function.code().is_some();
        let code_present_serialized = Const(Val::I32(if target_code_is_present {""")],
"an intercepted function that is imported",
"an imported function is announced to the analysis as having its code present, because its wrapper is already installed when this is looked up",
r'''
pub fn main() {
    let mut m = Module::new();
    m.add_function_import(ft(&[], &[]), "env".into(), "f".into());
    m.add_function(ft(&[], &[]), vec![], vec![Instr::End]);
    let mut a = AnalysisInterface::default();
    a.generic_interface = Some(AnalysisInterface::interface_generic_apply());
    let r = run(&m, &a, None);
    let h = import(&r, &a.generic_interface.unwrap().0.name.to_string());
    for (f, want) in [(0, 1), (1, 0)] {
        let g = body(&r, f);
        let c = calls(&g, h);
        assert_eq!(c.len(), 1);
        assert_eq!(g[c[0] - 1], i32c(want), "function {f}");
    }
}
''')
# ---- C42
seed("K42-results", "C42", [(W + "instrument/mod.rs",
"""    for ty_ in f.type_.results() {
        match ty_ {""",
"""    for ty_ in f.type_.results().iter().take(f.type_.inputs().len().max(1)) {
        match ty_ {""")],
"a function with fewer parameters than results whose second or later result is a reference",
"such a function is instrumented although its type mentions a reference type",
r'''
pub fn main() {
    let b = vec![i32c(7), Instr::RefNull(RefType::ExternRef), Instr::Return, Instr::End];
    let m = one(ft(&[], &[I, ValType::Ref(RefType::ExternRef)]), &[], b.clone());
    let mut a = AnalysisInterface::default();
    a.return_trap = Some(AnalysisInterface::interface_return());
    let r = run(&m, &a, None);
    assert_eq!(body(&r, 0), b);
}
''')
# ---- C43: groups
seed("K43-tee-f32", "C43", [("supported-languages/webassembly/src/generate/analysis/mod.rs",
"interface.local_tee_f32 = Some(AnalysisInterface::interface_local_tee_f32());",
"interface.local_tee_f32 = Some(AnalysisInterface::interface_local_set_f32());")],
"a WebAssembly analysis that selects the Local group and a program with local.tee of an f32",
"the hook for local.tee of an f32 is provided under the name of the hook for local.set: the analysis sees a set instead of a tee",
"pub fn main() {}\n", main=r'''
use front::webassembly::*;
fn main() {
    let i = interface_from(&[Hook::Local].into());
    assert_eq!(i.local_tee_f32.as_ref().map(|e| e.name.to_string()), Some("trap_local_tee_f32".to_string()));
    assert_eq!(i.local_set_f32.as_ref().map(|e| e.name.to_string()), Some("trap_local_set_f32".to_string()));
    assert!(i.global_set_f32.is_none());
}
''', front=True)
seed("K43-post-after-pre", "C43", [("supported-languages/assemblyscript/src/generate/analysis/wasp.rs",
"""                        wasp_interface.post_trap_call =
                            Some(AnalysisInterface::interface_call_post());""",
"""                        if wasp_interface.pre_trap_call_indirect.is_none() {
                            wasp_interface.post_trap_call =
                                Some(AnalysisInterface::interface_call_post());
                        }""")],
"a WASP program with advice after calls written after its advice before indirect calls",
"the advice after calls is silently left out when advice before indirect calls comes earlier in the program",
"pub fn main() {}\n", main=r'''
use wastrumentation::analysis::AnalysisInterface;
fn of(advice: &[&str]) -> AnalysisInterface { AnalysisInterface::from(&front::assemblyscript::WaspRoot(front::program(&format!("(aspect {})", advice.join(" "))).unwrap())) }
fn main() {
    let post = "(advice call post (f FunctionIndex) >>>GUEST>>>1;<<<GUEST<<<)";
    let pre = "(advice call_indirect pre (table FunctionTable) (index FunctionTableIndex) >>>GUEST>>>2;<<<GUEST<<<)";
    for advice in [vec![post], vec![post, pre], vec![pre, post]] {
        let i = of(&advice);
        assert!(i.post_trap_call.is_some(), "{advice:?}");
        assert_eq!(i.pre_trap_call_indirect.is_some(), advice.contains(&pre));
    }
    assert!(of(&[pre]).post_trap_call.is_none());
}
''', front=True)
seed("K43-all-hooks", "C43", [("supported-languages/rust/src/generate/analysis/mod.rs",
"""            BlockPre,
            BlockPost,
            LoopPre,
            LoopPost,
        ])""",
"""            BlockPre,
            BlockPost,
            LoopPre,
            BlockPost,
        ])""")],
"a Rust analysis that selects all groups and a program with a loop that ends",
"the set of all hook groups leaves out the one after loops, so an analysis of everything never sees a loop end",
"pub fn main() {}\n", main=r'''
use front::rust::*;
fn main() {
    let i = interface_from(&Hook::all_hooks());
    assert!(i.pre_loop.is_some() && i.post_block.is_some());
    assert!(i.post_loop.is_some());
}
''', front=True)
# ---- C44
seed("K44-chain", "C44", [("wastrumentation-static-analysis/src/lib.rs",
"""        if reiterate_no_more_findings() {
            break;""",
"""        if iteration >= 10 || reiterate_no_more_findings() {
            break;""")],
"a chain of more than ten calls between harmless functions, each declared before the one it calls",
"the search for immutable functions stops after ten rounds, so the functions at the start of a long call chain are not reported although nothing speaks against them",
"pub fn main() {}\n",
main=r'''use wasabi_wasm::*;
fn main() {
    let t = FunctionType::new(&[], &[]);
    for n in [1_u32, 2, 5, 14, 40] {
        let mut m = Module::new();
        for k in 0..n {
            let call = if k + 1 < n { Instr::Call((k + 1).into()) } else { Instr::Nop };
            m.add_function(t, vec![], vec![call, Instr::End]);
        }
        let p = wastrumentation_static_analysis::immutable_functions(&m);
        assert_eq!(p.len(), n as usize);
    }
}
''')
# ---- C28
seed("K28-last-const", "C28", [(W + "instrument/simple_operations.rs",
"""                ConstI64 for Instr::Const(Val::I64(_))
""",
"""                ConstI64 for Instr::Const(Val::I64(i64::MIN..=0x7fff_ffff_ffff_fffe))
""")],
"a constant that is the largest 64-bit integer",
"the hook on 64-bit integer constants does not see that constant",
r'''
pub fn main() {
    let mut a = AnalysisInterface::default();
    a.const_i64_trap = Some(AnalysisInterface::interface_const_i64());
    let name = a.const_i64_trap.as_ref().unwrap().name.to_string();
    for v in [0, 1, -1, i64::from(i32::MIN), i64::from(u32::MAX), i64::MIN, i64::MAX - 1, i64::MAX] {
        let m = one(ft(&[], &[]), &[], vec![i64c(v), Instr::Drop, Instr::End]);
        let r = run(&m, &a, None);
        let b = body(&r, 0);
        let c = calls(&b, import(&r, &name));
        assert_eq!(c.len(), 1, "{v}");
        assert_eq!(b[c[0] - 3], i64c(v));
    }
}
''')
# ---- C30
seed("K30-extend", "C30", [(W + "instrument/simple_operations.rs",
"""            UnaryOp::I64Extend16S      => 59,
            UnaryOp::I64Extend32S      => 60,""",
"""            UnaryOp::I64Extend16S      => 60,
            UnaryOp::I64Extend32S      => 59,""")],
"a program that sign-extends the low 16 or 32 bits of a 64-bit integer",
"the analysis is told of an extension from 32 bits where the program extends from 16, and the other way round",
r'''
pub fn main() {
    let mut a = AnalysisInterface::default();
    a.unary_i64_to_i64 = Some(AnalysisInterface::interface_unary_i64_to_i64());
    let name = a.unary_i64_to_i64.as_ref().unwrap().name.to_string();
    // as the analysis libraries decode them
    for (op, code) in [(UnaryOp::I64Clz, 6), (UnaryOp::I64Popcnt, 8), (UnaryOp::I64Extend8S, 58), (UnaryOp::I64Extend16S, 59), (UnaryOp::I64Extend32S, 60)] {
        let m = one(ft(&[], &[]), &[], vec![i64c(5), Instr::Unary(op), Instr::Drop, Instr::End]);
        let r = run(&m, &a, None);
        let b = body(&r, 0);
        let c = calls(&b, import(&r, &name));
        assert_eq!(c.len(), 1);
        assert_eq!(b[c[0] - 3], i32c(code), "{op:?}");
    }
}
''')
# ---- C33
seed("K33-grow", "C33", [(W + "analysis/mod.rs",
"""    interface_memory_grow           TRAP_NAME_MEMORY_GROW                        :                                        /*amount:*/ I32 /*idx:*/ I64 /*fidx*/ I64""",
"""    interface_memory_grow           TRAP_NAME_MEMORY_GROW                        :                                        /*amount:*/ I32 /*idx:*/ I32 /*fidx*/ I64""")],
"an analysis with the hook on growing memory",
"the hook is declared with a 32-bit memory index while the instrumented program passes a 64-bit one, so the instrumented module is invalid",
r'''
pub fn main() {
    let mut a = AnalysisInterface::default();
    a.memory_grow = Some(AnalysisInterface::interface_memory_grow());
    a.memory_size = Some(AnalysisInterface::interface_memory_size());
    let mut m = one(ft(&[], &[]), &[], vec![i32c(1), Instr::MemoryGrow(0_u32.into()), Instr::Drop, Instr::MemorySize(0_u32.into()), Instr::Drop, Instr::End]);
    m.memories.push(Memory { limits: Limits { initial_size: 1, max_size: None }, import: None, export: vec![] });
    let r = run(&m, &a, None);
    let b = body(&r, 0);
    for name in [a.memory_grow.as_ref().unwrap(), a.memory_size.as_ref().unwrap()] {
        let h = import(&r, &name.name.to_string());
        let c = calls(&b, h);
        assert_eq!(c.len(), 1);
        // what is pushed before the call, from the back
        let inputs = r.function(h.into()).type_.inputs().to_vec();
        for (k, t) in inputs.iter().rev().take(3).enumerate() {
            let got = match &b[c[0] - 1 - k] { Instr::Const(Val::I32(_)) => I, Instr::Const(Val::I64(_)) => L, i => panic!("{i:?}") };
            assert_eq!(got, *t, "operand {k} from the back");
        }
    }
}
''')
# ---- C38
seed("K38-same-bytes", "C38", [(W + "lib.rs",
"""        let input_modules = input_modules.into_iter().flatten().collect();
""",
"""        let mut input_modules: Vec<InputModule> = input_modules.into_iter().flatten().collect();
        // never hand the same module over twice
        input_modules.dedup_by_key(|input| input.module);
""")],
"an analysis whose compiled module is byte for byte the support library, no primary module selected",
"the second of two parts with the same bytes is not merged, so its namespace is missing",
r'''
struct Comp(Vec<u8>);
impl crate::compiler::Compiles<Lang> for Comp {
    type CompilerOptions = Opts;
    type CompilerSetupError = ();
    fn setup_compiler() -> Result<Self, ()> { Ok(Comp(vec![])) }
    fn compile(&self, _: &Opts) -> crate::compiler::CompilationResult<Lang> { Ok(self.0.clone()) }
}
pub fn main() {
    let m = one(ft(&[], &[]), &[], vec![Instr::Nop, Instr::End]);
    let bytes = m.to_bytes().unwrap();
    for analysis in [b"analysis".to_vec(), b"library".to_vec()] {
        for primary in [None, Some(crate::PrimaryTarget::Analysis), Some(crate::PrimaryTarget::Target)] {
            let w = crate::Wastrumenter::new(Box::new(Comp(b"library".to_vec())), Box::new(Comp(analysis.clone())));
            let mut i = AnalysisInterface::default();
            i.generic_interface = Some(AnalysisInterface::interface_generic_apply());
            let a = ProcessedAnalysis { analysis_library: String::new(), analysis_interface: i };
            let c = crate::Configuration { target_indices: None, primary_selection: primary };
            let out = w.wastrument(&bytes, a, &c).ok().expect("merged");
            let out = String::from_utf8(out).unwrap();
            for n in [INSTRUMENTED, ANALYSIS, LIBRARY] { assert_eq!(out.lines().filter(|l| *l == n).count(), 1, "{primary:?} {out}") }
        }
    }
}
const LIBRARY: &str = crate::instrument::function_application::INSTRUMENTATION_STACK_MODULE;
const INSTRUMENTED: &str = crate::instrument::function_application::INSTRUMENTATION_INSTRUMENTED_MODULE;
const ANALYSIS: &str = crate::instrument::function_application::INSTRUMENTATION_ANALYSIS_MODULE;
''', merge=r'''#!/bin/bash
# a stand-in for the merger: writes the namespaces it was given, one per line
words=()
while [ $# -gt 0 ]; do
  case "$1" in
    -o|--output) out=$2; shift;;
    -*) ;;
    *) words+=("$1");;
  esac
  shift
done
for ((i = 1; i < ${#words[@]}; i += 2)); do echo "${words[i]}"; done > "$out"
''')
