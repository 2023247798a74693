// written by gen_tables.py
pub fn leaf_nested(x: &wasabi_wasm::Instr) -> Option<HighLevelInstr> { Some(match x {
    wasabi_wasm::Instr::Unreachable => HighLevelInstr::Unreachable,
    wasabi_wasm::Instr::Nop => HighLevelInstr::Nop,
    wasabi_wasm::Instr::Br(a) => HighLevelInstr::Br(*a),
    wasabi_wasm::Instr::BrIf(a) => HighLevelInstr::BrIf(*a),
    wasabi_wasm::Instr::BrTable { table, default } => HighLevelInstr::BrTable { table: table.clone(), default: *default },
    wasabi_wasm::Instr::Return => HighLevelInstr::Return,
    wasabi_wasm::Instr::Call(a) => HighLevelInstr::Call(*a),
    wasabi_wasm::Instr::CallIndirect(a, b) => HighLevelInstr::CallIndirect(*a, *b),
    wasabi_wasm::Instr::RefNull(a) => HighLevelInstr::RefNull(*a),
    wasabi_wasm::Instr::RefIsNull => HighLevelInstr::RefIsNull,
    wasabi_wasm::Instr::RefFunc(a) => HighLevelInstr::RefFunc(*a),
    wasabi_wasm::Instr::Drop => HighLevelInstr::Drop,
    wasabi_wasm::Instr::Select => HighLevelInstr::Select,
    wasabi_wasm::Instr::TypedSelect(a) => HighLevelInstr::TypedSelect(*a),
    wasabi_wasm::Instr::Local(a, b) => HighLevelInstr::Local(*a, *b),
    wasabi_wasm::Instr::Global(a, b) => HighLevelInstr::Global(*a, *b),
    wasabi_wasm::Instr::TableGet(a) => HighLevelInstr::TableGet(*a),
    wasabi_wasm::Instr::TableSet(a) => HighLevelInstr::TableSet(*a),
    wasabi_wasm::Instr::TableSize(a) => HighLevelInstr::TableSize(*a),
    wasabi_wasm::Instr::TableGrow(a) => HighLevelInstr::TableGrow(*a),
    wasabi_wasm::Instr::TableFill(a) => HighLevelInstr::TableFill(*a),
    wasabi_wasm::Instr::TableCopy(a, b) => HighLevelInstr::TableCopy(*a, *b),
    wasabi_wasm::Instr::TableInit(a, b) => HighLevelInstr::TableInit(*a, *b),
    wasabi_wasm::Instr::ElemDrop(a) => HighLevelInstr::ElemDrop(*a),
    wasabi_wasm::Instr::Load(a, b) => HighLevelInstr::Load(*a, *b),
    wasabi_wasm::Instr::Store(a, b) => HighLevelInstr::Store(*a, *b),
    wasabi_wasm::Instr::MemorySize(a) => HighLevelInstr::MemorySize(*a),
    wasabi_wasm::Instr::MemoryGrow(a) => HighLevelInstr::MemoryGrow(*a),
    wasabi_wasm::Instr::MemoryFill => HighLevelInstr::MemoryFill,
    wasabi_wasm::Instr::MemoryCopy => HighLevelInstr::MemoryCopy,
    wasabi_wasm::Instr::MemoryInit(a) => HighLevelInstr::MemoryInit(*a),
    wasabi_wasm::Instr::DataDrop(a) => HighLevelInstr::DataDrop(*a),
    wasabi_wasm::Instr::Const(a) => HighLevelInstr::Const(*a),
    wasabi_wasm::Instr::Unary(a) => HighLevelInstr::Unary(*a),
    wasabi_wasm::Instr::Binary(a) => HighLevelInstr::Binary(*a),
    _ => return None,
}) }
pub fn leaf_flat(x: &HighLevelInstr) -> Option<wasabi_wasm::Instr> { Some(match x {
    HighLevelInstr::Unreachable => wasabi_wasm::Instr::Unreachable,
    HighLevelInstr::Nop => wasabi_wasm::Instr::Nop,
    HighLevelInstr::Br(a) => wasabi_wasm::Instr::Br(*a),
    HighLevelInstr::BrIf(a) => wasabi_wasm::Instr::BrIf(*a),
    HighLevelInstr::BrTable { table, default } => wasabi_wasm::Instr::BrTable { table: table.clone(), default: *default },
    HighLevelInstr::Return => wasabi_wasm::Instr::Return,
    HighLevelInstr::Call(a) => wasabi_wasm::Instr::Call(*a),
    HighLevelInstr::CallIndirect(a, b) => wasabi_wasm::Instr::CallIndirect(*a, *b),
    HighLevelInstr::RefNull(a) => wasabi_wasm::Instr::RefNull(*a),
    HighLevelInstr::RefIsNull => wasabi_wasm::Instr::RefIsNull,
    HighLevelInstr::RefFunc(a) => wasabi_wasm::Instr::RefFunc(*a),
    HighLevelInstr::Drop => wasabi_wasm::Instr::Drop,
    HighLevelInstr::Select => wasabi_wasm::Instr::Select,
    HighLevelInstr::TypedSelect(a) => wasabi_wasm::Instr::TypedSelect(*a),
    HighLevelInstr::Local(a, b) => wasabi_wasm::Instr::Local(*a, *b),
    HighLevelInstr::Global(a, b) => wasabi_wasm::Instr::Global(*a, *b),
    HighLevelInstr::TableGet(a) => wasabi_wasm::Instr::TableGet(*a),
    HighLevelInstr::TableSet(a) => wasabi_wasm::Instr::TableSet(*a),
    HighLevelInstr::TableSize(a) => wasabi_wasm::Instr::TableSize(*a),
    HighLevelInstr::TableGrow(a) => wasabi_wasm::Instr::TableGrow(*a),
    HighLevelInstr::TableFill(a) => wasabi_wasm::Instr::TableFill(*a),
    HighLevelInstr::TableCopy(a, b) => wasabi_wasm::Instr::TableCopy(*a, *b),
    HighLevelInstr::TableInit(a, b) => wasabi_wasm::Instr::TableInit(*a, *b),
    HighLevelInstr::ElemDrop(a) => wasabi_wasm::Instr::ElemDrop(*a),
    HighLevelInstr::Load(a, b) => wasabi_wasm::Instr::Load(*a, *b),
    HighLevelInstr::Store(a, b) => wasabi_wasm::Instr::Store(*a, *b),
    HighLevelInstr::MemorySize(a) => wasabi_wasm::Instr::MemorySize(*a),
    HighLevelInstr::MemoryGrow(a) => wasabi_wasm::Instr::MemoryGrow(*a),
    HighLevelInstr::MemoryFill => wasabi_wasm::Instr::MemoryFill,
    HighLevelInstr::MemoryCopy => wasabi_wasm::Instr::MemoryCopy,
    HighLevelInstr::MemoryInit(a) => wasabi_wasm::Instr::MemoryInit(*a),
    HighLevelInstr::DataDrop(a) => wasabi_wasm::Instr::DataDrop(*a),
    HighLevelInstr::Const(a) => wasabi_wasm::Instr::Const(*a),
    HighLevelInstr::Unary(a) => wasabi_wasm::Instr::Unary(*a),
    HighLevelInstr::Binary(a) => wasabi_wasm::Instr::Binary(*a),
    _ => return None,
}) }
pub fn leaf_untyped(x: &wasabi_wasm::Instr) -> Option<VerifUntypedInstr> { Some(match x {
    wasabi_wasm::Instr::Unreachable => VerifUntypedInstr::Unreachable,
    wasabi_wasm::Instr::Nop => VerifUntypedInstr::Nop,
    wasabi_wasm::Instr::Br(a) => VerifUntypedInstr::Br(*a),
    wasabi_wasm::Instr::BrIf(a) => VerifUntypedInstr::BrIf(*a),
    wasabi_wasm::Instr::BrTable { table, default } => VerifUntypedInstr::BrTable { table: table.clone(), default: *default },
    wasabi_wasm::Instr::Return => VerifUntypedInstr::Return,
    wasabi_wasm::Instr::Call(a) => VerifUntypedInstr::Call(*a),
    wasabi_wasm::Instr::CallIndirect(a, b) => VerifUntypedInstr::CallIndirect(*a, *b),
    wasabi_wasm::Instr::RefNull(a) => VerifUntypedInstr::RefNull(*a),
    wasabi_wasm::Instr::RefIsNull => VerifUntypedInstr::RefIsNull,
    wasabi_wasm::Instr::RefFunc(a) => VerifUntypedInstr::RefFunc(*a),
    wasabi_wasm::Instr::Drop => VerifUntypedInstr::Drop,
    wasabi_wasm::Instr::Select => VerifUntypedInstr::Select,
    wasabi_wasm::Instr::TypedSelect(a) => VerifUntypedInstr::TypedSelect(*a),
    wasabi_wasm::Instr::Local(a, b) => VerifUntypedInstr::Local(*a, *b),
    wasabi_wasm::Instr::Global(a, b) => VerifUntypedInstr::Global(*a, *b),
    wasabi_wasm::Instr::TableGet(a) => VerifUntypedInstr::TableGet(*a),
    wasabi_wasm::Instr::TableSet(a) => VerifUntypedInstr::TableSet(*a),
    wasabi_wasm::Instr::TableSize(a) => VerifUntypedInstr::TableSize(*a),
    wasabi_wasm::Instr::TableGrow(a) => VerifUntypedInstr::TableGrow(*a),
    wasabi_wasm::Instr::TableFill(a) => VerifUntypedInstr::TableFill(*a),
    wasabi_wasm::Instr::TableCopy(a, b) => VerifUntypedInstr::TableCopy(*a, *b),
    wasabi_wasm::Instr::TableInit(a, b) => VerifUntypedInstr::TableInit(*a, *b),
    wasabi_wasm::Instr::ElemDrop(a) => VerifUntypedInstr::ElemDrop(*a),
    wasabi_wasm::Instr::Load(a, b) => VerifUntypedInstr::Load(*a, *b),
    wasabi_wasm::Instr::Store(a, b) => VerifUntypedInstr::Store(*a, *b),
    wasabi_wasm::Instr::MemorySize(a) => VerifUntypedInstr::MemorySize(*a),
    wasabi_wasm::Instr::MemoryGrow(a) => VerifUntypedInstr::MemoryGrow(*a),
    wasabi_wasm::Instr::MemoryFill => VerifUntypedInstr::MemoryFill,
    wasabi_wasm::Instr::MemoryCopy => VerifUntypedInstr::MemoryCopy,
    wasabi_wasm::Instr::MemoryInit(a) => VerifUntypedInstr::MemoryInit(*a),
    wasabi_wasm::Instr::DataDrop(a) => VerifUntypedInstr::DataDrop(*a),
    wasabi_wasm::Instr::Const(a) => VerifUntypedInstr::Const(*a),
    wasabi_wasm::Instr::Unary(a) => VerifUntypedInstr::Unary(*a),
    wasabi_wasm::Instr::Binary(a) => VerifUntypedInstr::Binary(*a),
    _ => return None,
}) }
pub struct Hook { pub name: &'static str, pub prop: &'static str, pub field: &'static str, pub make: fn(Idx<Function>) -> Box<dyn TransformationStrategy>, pub interface: fn() -> WasmExport, pub get: fn(&AnalysisInterface) -> &Option<WasmExport>, pub set: fn(&mut AnalysisInterface, WasmExport) }
pub const HOOKS: [Hook; 75] = [
    Hook { name: "BlockPre", prop: "C25", field: "pre_block", make: |i| Box::new(crate::instrument::block_loop::Target::BlockPre(i)), interface: AnalysisInterface::interface_pre_block, get: |a| &a.pre_block, set: |a, e| a.pre_block = Some(e) },
    Hook { name: "BlockPost", prop: "C25", field: "post_block", make: |i| Box::new(crate::instrument::block_loop::Target::BlockPost(i)), interface: AnalysisInterface::interface_post_block, get: |a| &a.post_block, set: |a, e| a.post_block = Some(e) },
    Hook { name: "LoopPre", prop: "C25", field: "pre_loop", make: |i| Box::new(crate::instrument::block_loop::Target::LoopPre(i)), interface: AnalysisInterface::interface_pre_loop, get: |a| &a.pre_loop, set: |a, e| a.pre_loop = Some(e) },
    Hook { name: "LoopPost", prop: "C25", field: "post_loop", make: |i| Box::new(crate::instrument::block_loop::Target::LoopPost(i)), interface: AnalysisInterface::interface_post_loop, get: |a| &a.post_loop, set: |a, e| a.post_loop = Some(e) },
    Hook { name: "Select", prop: "C25", field: "select", make: |i| Box::new(crate::instrument::block_loop::Target::Select(i)), interface: AnalysisInterface::interface_select, get: |a| &a.select, set: |a, e| a.select = Some(e) },
    Hook { name: "IfThen", prop: "C26", field: "if_then_trap", make: |i| Box::new(crate::instrument::branch_if::Target::IfThen(i)), interface: AnalysisInterface::interface_if_then, get: |a| &a.if_then_trap, set: |a, e| a.if_then_trap = Some(e) },
    Hook { name: "IfThenPost", prop: "C26", field: "if_then_post_trap", make: |i| Box::new(crate::instrument::branch_if::Target::IfThenPost(i)), interface: AnalysisInterface::interface_if_then_post, get: |a| &a.if_then_post_trap, set: |a, e| a.if_then_post_trap = Some(e) },
    Hook { name: "IfThenElse", prop: "C26", field: "if_then_else_trap", make: |i| Box::new(crate::instrument::branch_if::Target::IfThenElse(i)), interface: AnalysisInterface::interface_if_then_else, get: |a| &a.if_then_else_trap, set: |a, e| a.if_then_else_trap = Some(e) },
    Hook { name: "IfThenElsePost", prop: "C26", field: "if_then_else_post_trap", make: |i| Box::new(crate::instrument::branch_if::Target::IfThenElsePost(i)), interface: AnalysisInterface::interface_if_then_else_post, get: |a| &a.if_then_else_post_trap, set: |a, e| a.if_then_else_post_trap = Some(e) },
    Hook { name: "Br", prop: "C26", field: "br_trap", make: |i| Box::new(crate::instrument::branch_if::Target::Br(i)), interface: AnalysisInterface::interface_br, get: |a| &a.br_trap, set: |a, e| a.br_trap = Some(e) },
    Hook { name: "BrIf", prop: "C26", field: "br_if_trap", make: |i| Box::new(crate::instrument::branch_if::Target::BrIf(i)), interface: AnalysisInterface::interface_br_if, get: |a| &a.br_if_trap, set: |a, e| a.br_if_trap = Some(e) },
    Hook { name: "BrTable", prop: "C26", field: "br_table_trap", make: |i| Box::new(crate::instrument::branch_if::Target::BrTable(i)), interface: AnalysisInterface::interface_br_table, get: |a| &a.br_table_trap, set: |a, e| a.br_table_trap = Some(e) },
    Hook { name: "Pre", prop: "C27", field: "pre_trap_call", make: |i| Box::new(crate::instrument::function_call_indirect::Target::Pre(i)), interface: AnalysisInterface::interface_call_pre, get: |a| &a.pre_trap_call, set: |a, e| a.pre_trap_call = Some(e) },
    Hook { name: "Post", prop: "C27", field: "post_trap_call", make: |i| Box::new(crate::instrument::function_call_indirect::Target::Post(i)), interface: AnalysisInterface::interface_call_post, get: |a| &a.post_trap_call, set: |a, e| a.post_trap_call = Some(e) },
    Hook { name: "IndirectPre", prop: "C27", field: "pre_trap_call_indirect", make: |i| Box::new(crate::instrument::function_call_indirect::Target::IndirectPre(i)), interface: AnalysisInterface::interface_call_indirect_pre, get: |a| &a.pre_trap_call_indirect, set: |a, e| a.pre_trap_call_indirect = Some(e) },
    Hook { name: "IndirectPost", prop: "C27", field: "post_trap_call_indirect", make: |i| Box::new(crate::instrument::function_call_indirect::Target::IndirectPost(i)), interface: AnalysisInterface::interface_call_indirect_post, get: |a| &a.post_trap_call_indirect, set: |a, e| a.post_trap_call_indirect = Some(e) },
    Hook { name: "Drop", prop: "C28", field: "drop_trap", make: |i| Box::new(crate::instrument::simple_operations::Target::Drop(i)), interface: AnalysisInterface::interface_drop, get: |a| &a.drop_trap, set: |a, e| a.drop_trap = Some(e) },
    Hook { name: "Return", prop: "C28", field: "return_trap", make: |i| Box::new(crate::instrument::simple_operations::Target::Return(i)), interface: AnalysisInterface::interface_return, get: |a| &a.return_trap, set: |a, e| a.return_trap = Some(e) },
    Hook { name: "ConstI32", prop: "C28", field: "const_i32_trap", make: |i| Box::new(crate::instrument::simple_operations::Target::ConstI32(i)), interface: AnalysisInterface::interface_const_i32, get: |a| &a.const_i32_trap, set: |a, e| a.const_i32_trap = Some(e) },
    Hook { name: "ConstF32", prop: "C28", field: "const_f32_trap", make: |i| Box::new(crate::instrument::simple_operations::Target::ConstF32(i)), interface: AnalysisInterface::interface_const_f32, get: |a| &a.const_f32_trap, set: |a, e| a.const_f32_trap = Some(e) },
    Hook { name: "ConstI64", prop: "C28", field: "const_i64_trap", make: |i| Box::new(crate::instrument::simple_operations::Target::ConstI64(i)), interface: AnalysisInterface::interface_const_i64, get: |a| &a.const_i64_trap, set: |a, e| a.const_i64_trap = Some(e) },
    Hook { name: "ConstF64", prop: "C28", field: "const_f64_trap", make: |i| Box::new(crate::instrument::simple_operations::Target::ConstF64(i)), interface: AnalysisInterface::interface_const_f64, get: |a| &a.const_f64_trap, set: |a, e| a.const_f64_trap = Some(e) },
    Hook { name: "UnaryI32ToI32", prop: "C28", field: "unary_i32_to_i32", make: |i| Box::new(crate::instrument::simple_operations::Target::UnaryI32ToI32(i)), interface: AnalysisInterface::interface_unary_i32_to_i32, get: |a| &a.unary_i32_to_i32, set: |a, e| a.unary_i32_to_i32 = Some(e) },
    Hook { name: "UnaryI64ToI32", prop: "C28", field: "unary_i64_to_i32", make: |i| Box::new(crate::instrument::simple_operations::Target::UnaryI64ToI32(i)), interface: AnalysisInterface::interface_unary_i64_to_i32, get: |a| &a.unary_i64_to_i32, set: |a, e| a.unary_i64_to_i32 = Some(e) },
    Hook { name: "UnaryI64ToI64", prop: "C28", field: "unary_i64_to_i64", make: |i| Box::new(crate::instrument::simple_operations::Target::UnaryI64ToI64(i)), interface: AnalysisInterface::interface_unary_i64_to_i64, get: |a| &a.unary_i64_to_i64, set: |a, e| a.unary_i64_to_i64 = Some(e) },
    Hook { name: "UnaryF32ToF32", prop: "C28", field: "unary_f32_to_f32", make: |i| Box::new(crate::instrument::simple_operations::Target::UnaryF32ToF32(i)), interface: AnalysisInterface::interface_unary_f32_to_f32, get: |a| &a.unary_f32_to_f32, set: |a, e| a.unary_f32_to_f32 = Some(e) },
    Hook { name: "UnaryF64ToF64", prop: "C28", field: "unary_f64_to_f64", make: |i| Box::new(crate::instrument::simple_operations::Target::UnaryF64ToF64(i)), interface: AnalysisInterface::interface_unary_f64_to_f64, get: |a| &a.unary_f64_to_f64, set: |a, e| a.unary_f64_to_f64 = Some(e) },
    Hook { name: "UnaryF32ToI32", prop: "C28", field: "unary_f32_to_i32", make: |i| Box::new(crate::instrument::simple_operations::Target::UnaryF32ToI32(i)), interface: AnalysisInterface::interface_unary_f32_to_i32, get: |a| &a.unary_f32_to_i32, set: |a, e| a.unary_f32_to_i32 = Some(e) },
    Hook { name: "UnaryF64ToI32", prop: "C28", field: "unary_f64_to_i32", make: |i| Box::new(crate::instrument::simple_operations::Target::UnaryF64ToI32(i)), interface: AnalysisInterface::interface_unary_f64_to_i32, get: |a| &a.unary_f64_to_i32, set: |a, e| a.unary_f64_to_i32 = Some(e) },
    Hook { name: "UnaryI32ToI64", prop: "C28", field: "unary_i32_to_i64", make: |i| Box::new(crate::instrument::simple_operations::Target::UnaryI32ToI64(i)), interface: AnalysisInterface::interface_unary_i32_to_i64, get: |a| &a.unary_i32_to_i64, set: |a, e| a.unary_i32_to_i64 = Some(e) },
    Hook { name: "UnaryF32ToI64", prop: "C28", field: "unary_f32_to_i64", make: |i| Box::new(crate::instrument::simple_operations::Target::UnaryF32ToI64(i)), interface: AnalysisInterface::interface_unary_f32_to_i64, get: |a| &a.unary_f32_to_i64, set: |a, e| a.unary_f32_to_i64 = Some(e) },
    Hook { name: "UnaryF64ToI64", prop: "C28", field: "unary_f64_to_i64", make: |i| Box::new(crate::instrument::simple_operations::Target::UnaryF64ToI64(i)), interface: AnalysisInterface::interface_unary_f64_to_i64, get: |a| &a.unary_f64_to_i64, set: |a, e| a.unary_f64_to_i64 = Some(e) },
    Hook { name: "UnaryI32ToF32", prop: "C28", field: "unary_i32_to_f32", make: |i| Box::new(crate::instrument::simple_operations::Target::UnaryI32ToF32(i)), interface: AnalysisInterface::interface_unary_i32_to_f32, get: |a| &a.unary_i32_to_f32, set: |a, e| a.unary_i32_to_f32 = Some(e) },
    Hook { name: "UnaryI64ToF32", prop: "C28", field: "unary_i64_to_f32", make: |i| Box::new(crate::instrument::simple_operations::Target::UnaryI64ToF32(i)), interface: AnalysisInterface::interface_unary_i64_to_f32, get: |a| &a.unary_i64_to_f32, set: |a, e| a.unary_i64_to_f32 = Some(e) },
    Hook { name: "UnaryF64ToF32", prop: "C28", field: "unary_f64_to_f32", make: |i| Box::new(crate::instrument::simple_operations::Target::UnaryF64ToF32(i)), interface: AnalysisInterface::interface_unary_f64_to_f32, get: |a| &a.unary_f64_to_f32, set: |a, e| a.unary_f64_to_f32 = Some(e) },
    Hook { name: "UnaryI32ToF64", prop: "C28", field: "unary_i32_to_f64", make: |i| Box::new(crate::instrument::simple_operations::Target::UnaryI32ToF64(i)), interface: AnalysisInterface::interface_unary_i32_to_f64, get: |a| &a.unary_i32_to_f64, set: |a, e| a.unary_i32_to_f64 = Some(e) },
    Hook { name: "UnaryI64ToF64", prop: "C28", field: "unary_i64_to_f64", make: |i| Box::new(crate::instrument::simple_operations::Target::UnaryI64ToF64(i)), interface: AnalysisInterface::interface_unary_i64_to_f64, get: |a| &a.unary_i64_to_f64, set: |a, e| a.unary_i64_to_f64 = Some(e) },
    Hook { name: "UnaryF32ToF64", prop: "C28", field: "unary_f32_to_f64", make: |i| Box::new(crate::instrument::simple_operations::Target::UnaryF32ToF64(i)), interface: AnalysisInterface::interface_unary_f32_to_f64, get: |a| &a.unary_f32_to_f64, set: |a, e| a.unary_f32_to_f64 = Some(e) },
    Hook { name: "BinaryI32I32toI32", prop: "C28", field: "binary_i32_i32_to_i32", make: |i| Box::new(crate::instrument::simple_operations::Target::BinaryI32I32toI32(i)), interface: AnalysisInterface::interface_binary_i32_i32_to_i32, get: |a| &a.binary_i32_i32_to_i32, set: |a, e| a.binary_i32_i32_to_i32 = Some(e) },
    Hook { name: "BinaryI64I64toI32", prop: "C28", field: "binary_i64_i64_to_i32", make: |i| Box::new(crate::instrument::simple_operations::Target::BinaryI64I64toI32(i)), interface: AnalysisInterface::interface_binary_i64_i64_to_i32, get: |a| &a.binary_i64_i64_to_i32, set: |a, e| a.binary_i64_i64_to_i32 = Some(e) },
    Hook { name: "BinaryF32F32toI32", prop: "C28", field: "binary_f32_f32_to_i32", make: |i| Box::new(crate::instrument::simple_operations::Target::BinaryF32F32toI32(i)), interface: AnalysisInterface::interface_binary_f32_f32_to_i32, get: |a| &a.binary_f32_f32_to_i32, set: |a, e| a.binary_f32_f32_to_i32 = Some(e) },
    Hook { name: "BinaryF64F64toI32", prop: "C28", field: "binary_f64_f64_to_i32", make: |i| Box::new(crate::instrument::simple_operations::Target::BinaryF64F64toI32(i)), interface: AnalysisInterface::interface_binary_f64_f64_to_i32, get: |a| &a.binary_f64_f64_to_i32, set: |a, e| a.binary_f64_f64_to_i32 = Some(e) },
    Hook { name: "BinaryI64I64toI64", prop: "C28", field: "binary_i64_i64_to_i64", make: |i| Box::new(crate::instrument::simple_operations::Target::BinaryI64I64toI64(i)), interface: AnalysisInterface::interface_binary_i64_i64_to_i64, get: |a| &a.binary_i64_i64_to_i64, set: |a, e| a.binary_i64_i64_to_i64 = Some(e) },
    Hook { name: "BinaryF32F32toF32", prop: "C28", field: "binary_f32_f32_to_f32", make: |i| Box::new(crate::instrument::simple_operations::Target::BinaryF32F32toF32(i)), interface: AnalysisInterface::interface_binary_f32_f32_to_f32, get: |a| &a.binary_f32_f32_to_f32, set: |a, e| a.binary_f32_f32_to_f32 = Some(e) },
    Hook { name: "BinaryF64F64toF64", prop: "C28", field: "binary_f64_f64_to_f64", make: |i| Box::new(crate::instrument::simple_operations::Target::BinaryF64F64toF64(i)), interface: AnalysisInterface::interface_binary_f64_f64_to_f64, get: |a| &a.binary_f64_f64_to_f64, set: |a, e| a.binary_f64_f64_to_f64 = Some(e) },
    Hook { name: "MemorySize", prop: "C29", field: "memory_size", make: |i| Box::new(crate::instrument::memory::Target::MemorySize(i)), interface: AnalysisInterface::interface_memory_size, get: |a| &a.memory_size, set: |a, e| a.memory_size = Some(e) },
    Hook { name: "MemoryGrow", prop: "C29", field: "memory_grow", make: |i| Box::new(crate::instrument::memory::Target::MemoryGrow(i)), interface: AnalysisInterface::interface_memory_grow, get: |a| &a.memory_grow, set: |a, e| a.memory_grow = Some(e) },
    Hook { name: "LocalGetI32", prop: "C29", field: "local_get_i32", make: |i| Box::new(crate::instrument::memory::Target::LocalGetI32(i)), interface: AnalysisInterface::interface_local_get_i32, get: |a| &a.local_get_i32, set: |a, e| a.local_get_i32 = Some(e) },
    Hook { name: "LocalSetI32", prop: "C29", field: "local_set_i32", make: |i| Box::new(crate::instrument::memory::Target::LocalSetI32(i)), interface: AnalysisInterface::interface_local_set_i32, get: |a| &a.local_set_i32, set: |a, e| a.local_set_i32 = Some(e) },
    Hook { name: "LocalTeeI32", prop: "C29", field: "local_tee_i32", make: |i| Box::new(crate::instrument::memory::Target::LocalTeeI32(i)), interface: AnalysisInterface::interface_local_tee_i32, get: |a| &a.local_tee_i32, set: |a, e| a.local_tee_i32 = Some(e) },
    Hook { name: "GlobalGetI32", prop: "C29", field: "global_get_i32", make: |i| Box::new(crate::instrument::memory::Target::GlobalGetI32(i)), interface: AnalysisInterface::interface_global_get_i32, get: |a| &a.global_get_i32, set: |a, e| a.global_get_i32 = Some(e) },
    Hook { name: "GlobalSetI32", prop: "C29", field: "global_set_i32", make: |i| Box::new(crate::instrument::memory::Target::GlobalSetI32(i)), interface: AnalysisInterface::interface_global_set_i32, get: |a| &a.global_set_i32, set: |a, e| a.global_set_i32 = Some(e) },
    Hook { name: "LocalGetF32", prop: "C29", field: "local_get_f32", make: |i| Box::new(crate::instrument::memory::Target::LocalGetF32(i)), interface: AnalysisInterface::interface_local_get_f32, get: |a| &a.local_get_f32, set: |a, e| a.local_get_f32 = Some(e) },
    Hook { name: "LocalSetF32", prop: "C29", field: "local_set_f32", make: |i| Box::new(crate::instrument::memory::Target::LocalSetF32(i)), interface: AnalysisInterface::interface_local_set_f32, get: |a| &a.local_set_f32, set: |a, e| a.local_set_f32 = Some(e) },
    Hook { name: "LocalTeeF32", prop: "C29", field: "local_tee_f32", make: |i| Box::new(crate::instrument::memory::Target::LocalTeeF32(i)), interface: AnalysisInterface::interface_local_tee_f32, get: |a| &a.local_tee_f32, set: |a, e| a.local_tee_f32 = Some(e) },
    Hook { name: "GlobalGetF32", prop: "C29", field: "global_get_f32", make: |i| Box::new(crate::instrument::memory::Target::GlobalGetF32(i)), interface: AnalysisInterface::interface_global_get_f32, get: |a| &a.global_get_f32, set: |a, e| a.global_get_f32 = Some(e) },
    Hook { name: "GlobalSetF32", prop: "C29", field: "global_set_f32", make: |i| Box::new(crate::instrument::memory::Target::GlobalSetF32(i)), interface: AnalysisInterface::interface_global_set_f32, get: |a| &a.global_set_f32, set: |a, e| a.global_set_f32 = Some(e) },
    Hook { name: "LocalGetI64", prop: "C29", field: "local_get_i64", make: |i| Box::new(crate::instrument::memory::Target::LocalGetI64(i)), interface: AnalysisInterface::interface_local_get_i64, get: |a| &a.local_get_i64, set: |a, e| a.local_get_i64 = Some(e) },
    Hook { name: "LocalSetI64", prop: "C29", field: "local_set_i64", make: |i| Box::new(crate::instrument::memory::Target::LocalSetI64(i)), interface: AnalysisInterface::interface_local_set_i64, get: |a| &a.local_set_i64, set: |a, e| a.local_set_i64 = Some(e) },
    Hook { name: "LocalTeeI64", prop: "C29", field: "local_tee_i64", make: |i| Box::new(crate::instrument::memory::Target::LocalTeeI64(i)), interface: AnalysisInterface::interface_local_tee_i64, get: |a| &a.local_tee_i64, set: |a, e| a.local_tee_i64 = Some(e) },
    Hook { name: "GlobalGetI64", prop: "C29", field: "global_get_i64", make: |i| Box::new(crate::instrument::memory::Target::GlobalGetI64(i)), interface: AnalysisInterface::interface_global_get_i64, get: |a| &a.global_get_i64, set: |a, e| a.global_get_i64 = Some(e) },
    Hook { name: "GlobalSetI64", prop: "C29", field: "global_set_i64", make: |i| Box::new(crate::instrument::memory::Target::GlobalSetI64(i)), interface: AnalysisInterface::interface_global_set_i64, get: |a| &a.global_set_i64, set: |a, e| a.global_set_i64 = Some(e) },
    Hook { name: "LocalGetF64", prop: "C29", field: "local_get_f64", make: |i| Box::new(crate::instrument::memory::Target::LocalGetF64(i)), interface: AnalysisInterface::interface_local_get_f64, get: |a| &a.local_get_f64, set: |a, e| a.local_get_f64 = Some(e) },
    Hook { name: "LocalSetF64", prop: "C29", field: "local_set_f64", make: |i| Box::new(crate::instrument::memory::Target::LocalSetF64(i)), interface: AnalysisInterface::interface_local_set_f64, get: |a| &a.local_set_f64, set: |a, e| a.local_set_f64 = Some(e) },
    Hook { name: "LocalTeeF64", prop: "C29", field: "local_tee_f64", make: |i| Box::new(crate::instrument::memory::Target::LocalTeeF64(i)), interface: AnalysisInterface::interface_local_tee_f64, get: |a| &a.local_tee_f64, set: |a, e| a.local_tee_f64 = Some(e) },
    Hook { name: "GlobalGetF64", prop: "C29", field: "global_get_f64", make: |i| Box::new(crate::instrument::memory::Target::GlobalGetF64(i)), interface: AnalysisInterface::interface_global_get_f64, get: |a| &a.global_get_f64, set: |a, e| a.global_get_f64 = Some(e) },
    Hook { name: "GlobalSetF64", prop: "C29", field: "global_set_f64", make: |i| Box::new(crate::instrument::memory::Target::GlobalSetF64(i)), interface: AnalysisInterface::interface_global_set_f64, get: |a| &a.global_set_f64, set: |a, e| a.global_set_f64 = Some(e) },
    Hook { name: "I32Store", prop: "C29", field: "i32_store", make: |i| Box::new(crate::instrument::memory::Target::I32Store(i)), interface: AnalysisInterface::interface_i32_store, get: |a| &a.i32_store, set: |a, e| a.i32_store = Some(e) },
    Hook { name: "I32Load", prop: "C29", field: "i32_load", make: |i| Box::new(crate::instrument::memory::Target::I32Load(i)), interface: AnalysisInterface::interface_i32_load, get: |a| &a.i32_load, set: |a, e| a.i32_load = Some(e) },
    Hook { name: "F32Store", prop: "C29", field: "f32_store", make: |i| Box::new(crate::instrument::memory::Target::F32Store(i)), interface: AnalysisInterface::interface_f32_store, get: |a| &a.f32_store, set: |a, e| a.f32_store = Some(e) },
    Hook { name: "F32Load", prop: "C29", field: "f32_load", make: |i| Box::new(crate::instrument::memory::Target::F32Load(i)), interface: AnalysisInterface::interface_f32_load, get: |a| &a.f32_load, set: |a, e| a.f32_load = Some(e) },
    Hook { name: "I64Store", prop: "C29", field: "i64_store", make: |i| Box::new(crate::instrument::memory::Target::I64Store(i)), interface: AnalysisInterface::interface_i64_store, get: |a| &a.i64_store, set: |a, e| a.i64_store = Some(e) },
    Hook { name: "I64Load", prop: "C29", field: "i64_load", make: |i| Box::new(crate::instrument::memory::Target::I64Load(i)), interface: AnalysisInterface::interface_i64_load, get: |a| &a.i64_load, set: |a, e| a.i64_load = Some(e) },
    Hook { name: "F64Store", prop: "C29", field: "f64_store", make: |i| Box::new(crate::instrument::memory::Target::F64Store(i)), interface: AnalysisInterface::interface_f64_store, get: |a| &a.f64_store, set: |a, e| a.f64_store = Some(e) },
    Hook { name: "F64Load", prop: "C29", field: "f64_load", make: |i| Box::new(crate::instrument::memory::Target::F64Load(i)), interface: AnalysisInterface::interface_f64_load, get: |a| &a.f64_load, set: |a, e| a.f64_load = Some(e) },
];
