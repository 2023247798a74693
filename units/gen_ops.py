#!/usr/bin/env python3
"""C30: operation codes"""
from gen_wasabi import *
L = "wastrumentation-instr-lib/tests/analyses/rust/wastrumentation-rs-stdlib/src"
o = f"""@@include lib.vu
@@include wasabi.vu
@@extern wasabi_wasm
@@module simple_operations wastrumentation/src/instrument/simple_operations.rs
@@module memory wastrumentation/src/instrument/memory.rs
@@module std_unary {L}/unary.rs
@@module std_binary {L}/binary.rs
@@module std_memory {L}/memory.rs
@@only simple_operations WastrumentationSerializable; <WastrumentationSerializableforUnaryOp>; <WastrumentationSerializableforBinaryOp>
@@only memory Serialize; <SerializeforStoreOp>; <SerializeforLoadOp>
@@only std_unary UnaryOperator; <From<i32>forUnaryOperator>
@@only std_binary BinaryOperator; <From<i32>forBinaryOperator>
@@only std_memory StoreOperation; LoadOperation; Deserialize; <DeserializeforStoreOperation>; <DeserializeforLoadOperation>
"""
for m, ops in (("unary", "UnaryOperator"), ("binary", "BinaryOperator"), ("memory", "StoreOperation"), ("memory", "LoadOperation")):
    o += f"@@drop std_{m}::{ops}::*\n"
o += "@@drop std_unary::use*\n@@drop std_binary::use*\n@@drop std_memory::use*\n@@drop memory::usesuper*\n@@drop memory::usecrate*\n@@drop simple_operations::usesuper*\n@@drop simple_operations::usecrate*\n"
o += "@@raw codes\nuse crate::wasabi_wasm::*;\n"
for n, ty, ops in (("un", "UnaryOp", UN), ("bin", "BinaryOp", BIN), ("store", "StoreOp", STORE), ("load", "LoadOp", LOAD)):
    # opaque: which code it is does not matter, only that it is the one the decoder knows; the shared table is the contract between both sides
    o += f"pub uninterp spec fn {n}_code(o: {ty}) -> int;\n" if False else ""
    o += table(f"{n}_code", ty, [(x, str(i + 1) + "int") for i, x in enumerate(ops)], "int")
for n, ty, lib, ops in (("un", "UnaryOp", "std_unary::UnaryOperator", UN), ("bin", "BinaryOp", "std_binary::BinaryOperator", BIN),
                        ("store", "StoreOp", "std_memory::StoreOperation", STORE), ("load", "LoadOp", "std_memory::LoadOperation", LOAD)):
    o += table(f"lib_{n}", ty, [(x, f"crate::{lib}::{x}") for x in ops], f"crate::{lib}")
    o += f"""pub proof fn {n}_codes_are_positive_and_distinct(a: {ty}, b: {ty})
    ensures {n}_code(a) >= 1, {n}_code(a) == {n}_code(b) ==> a == b, // [C30]
{{ }}
"""
    # the decoder as a function of the code
    o += f"pub open spec fn {n}_dec(c: int) -> crate::{lib} {{\n    " + " else ".join(f"if c == {i + 1} {{ crate::{lib}::{x} }}" for i, x in enumerate(ops[:-1])) + f" else {{ crate::{lib}::{ops[-1]} }}\n}}\n"
    o += f"""pub proof fn {n}_decoding_inverts_encoding(o: {ty})
    ensures {n}_dec({n}_code(o)) == lib_{n}(o), // [C30]
{{ }}
"""
def c(key, text): 
    global o
    o += f"@@fn {key}\n@contract\n{text}"
c("simple_operations::<WastrumentationSerializableforUnaryOp>::serialize", "    ensures r == crate::codes::un_code(*self), // [C30]\n")
c("simple_operations::<WastrumentationSerializableforBinaryOp>::serialize", "    ensures r == crate::codes::bin_code(*self), // [C30]\n")
c("memory::<SerializeforStoreOp>::serialize", "    ensures r == crate::codes::store_code(*self), // [C30]\n")
c("memory::<SerializeforLoadOp>::serialize", "    ensures r == crate::codes::load_code(*self), // [C30]\n")
c("std_unary::<From<i32>forUnaryOperator>::from", f"    ensures r == crate::codes::un_dec(value as int), // [C30]\n@panics !(1 <= $p0 <= 60)\n")
c("std_binary::<From<i32>forBinaryOperator>::from", f"    ensures r == crate::codes::bin_dec(value as int), // [C30]\n@panics !(1 <= $p0 <= 76)\n")
o += """@@fn std_memory::<DeserializeforStoreOperation>::deserialize
@contract
    ensures r == crate::codes::store_dec(*$p0 as int), // [C30]
@panics !(1 <= *$p0 <= 9)
@@fn std_memory::<DeserializeforLoadOperation>::deserialize
@contract
    ensures r == crate::codes::load_dec(*$p0 as int), // [C30]
@panics !(1 <= *$p0 <= 14)
"""
open("ops.vu", "w").write(o)
