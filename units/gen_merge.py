#!/usr/bin/env python3
"""writes units/merge.vu"""
import os
FL = [("NoValidate","no_validation","--no-validation"),("RenameExportConflicts","rename_export_conflicts","--rename-export-conflicts"),
("BulkMemory","bulk_memory","--enable-bulk-memory"),("BulkMemoryOpt","bulk_memory_opt","--enable-bulk-memory-opt"),
("CallIndirectOverlong","call_indirect_overlong","--enable-call-indirect-overlong"),("ExtendedConst","extended_const","--enable-extended-const"),
("ExceptionHandling","exception_handling","--enable-exception-handling"),("Fp16","fp16","--enable-fp16"),("Gc","gc","--enable-gc"),
("Memory64","memory64","--enable-memory64"),("Multimemory","multimemory","--enable-multimemory"),("Multivalue","multivalue","--enable-multivalue"),
("MutableGlobals","mutable_globals","--enable-mutable-globals"),("NontrappingFloatToInt","nontrapping_float_to_int","--enable-nontrapping-float-to-int"),
("ReferenceTypes","reference_types","--enable-reference-types"),("RelaxedSimd","relaxed_simd","--enable-relaxed-simd"),
("SharedEverything","shared_everything","--enable-shared-everything"),("SignExt","sign_ext","--enable-sign-ext"),("Simd","simd","--enable-simd"),
("Strings","strings","--enable-strings"),("TailCall","tail_call","--enable-tail-call"),("Threads","threads","--enable-threads"),
("TypedContinuations","typed_continuations","--enable-typed-continuations")]
o=[]; w=o.append
w('''@@include lib.vu
@@include words.vu
@@module error wasm-merge/src/error.rs
@@module options wasm-merge/src/options.rs
@@module merge wasm-merge/src/lib.rs
@@map std crate::vx_std
@@map tempfile crate::vx_tempfile
@@map error crate::error
@@map options crate::options
@@drop error::usethiserror::*
@@raw vx_std
pub mod io {
    use vstd::prelude::*;
    #[verifier::external_body] pub struct Error { e: () }
    pub trait Read {}
    pub trait Write {}
}
pub mod process {
    use vstd::prelude::*;
    // What happened on the machine: program `prog` was run with these arguments and ended with this output.
    // A process was run, and this is what std::process::Output reports about it.
    pub uninterp spec fn ran(prog: Seq<char>, args: Seq<Seq<char>>, out: Output) -> bool;
    #[verifier::external_body] pub struct ExitStatus { s: () }
    impl ExitStatus {
        pub uninterp spec fn ok(&self) -> bool;
        #[verifier::external_body] pub fn success(&self) -> (r: bool) ensures r == self.ok() { unimplemented!() }
    }
    pub struct Output { pub status: ExitStatus, pub stdout: Vec<u8>, pub stderr: Vec<u8> }
    #[verifier::external_body] pub struct Command { c: () }
    impl Command {
        pub uninterp spec fn prog(&self) -> Seq<char>;
        pub uninterp spec fn argv(&self) -> Seq<Seq<char>>;
        #[verifier::external_body] pub fn new(p: &str) -> (r: Command) ensures r.prog() == p@, r.argv() == Seq::<Seq<char>>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn args<const N: usize>(&mut self, a: [&str; N]) -> (r: &mut Command)
            ensures final(self).prog() == old(self).prog(), final(self).argv() == old(self).argv() + a@.map_values(|s: &str| s@) { unimplemented!() }
        #[verifier::external_body] pub fn output(&mut self) -> (r: Result<Output, crate::vx_std::io::Error>)
            ensures final(self).prog() == old(self).prog(), final(self).argv() == old(self).argv(), r is Ok ==> ran(old(self).prog(), old(self).argv(), r->Ok_0) { unimplemented!() }
    }
}
@@raw vx_tempfile
use crate::vx_std::io::Error; use crate::vxlib::plain_word;
#[verifier::external_body] pub struct NamedTempFile { f: () }
#[verifier::external_body] pub struct Path { f: () }
#[verifier::external_body] pub struct Lossy<'a> { f: &'a () }
impl Path { pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn to_string_lossy(&self) -> (r: Lossy<'_>) ensures r.text() == self.text() { unimplemented!() } }
impl<'a> Lossy<'a> { pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() } }
// The bytes the merger left in the file of that name.
pub uninterp spec fn left_in(path: Seq<char>) -> Seq<u8>;

impl NamedTempFile {
    pub uninterp spec fn name(&self) -> Seq<char>;
    pub uninterp spec fn content(&self) -> Seq<u8>;
    // Trusted: a fresh empty file; the temporary directory's path is one shell word.
    #[verifier::external_body] pub fn new() -> (r: Result<NamedTempFile, Error>)
        ensures r is Ok ==> r->Ok_0.content() == Seq::<u8>::empty() && plain_word(r->Ok_0.name()) { unimplemented!() }
    #[verifier::external_body] pub fn path(&self) -> (r: &Path) ensures r.text() == self.name() { unimplemented!() }
    #[verifier::external_body] pub fn write_all(&mut self, b: &[u8]) -> (r: Result<(), Error>)
        ensures final(self).name() == old(self).name(), r is Ok ==> final(self).content() == old(self).content() + b@ { unimplemented!() }
    #[verifier::external_body] pub fn read_to_end(&mut self, b: &mut Vec<u8>) -> (r: Result<usize, Error>)
        ensures final(self).name() == old(self).name(), r is Ok ==> final(b)@ == old(b)@ + left_in(old(self).name()) { unimplemented!() }
}
''')
for t,f,s in FL:
    w(f'''@@fn options::<Defaultfor{t}>::default
@contract
    ensures r is Disable, // [C10]
@@fn options::<AsOptionfor{t}>::as_option
@contract
    ensures r@ == crate::merge::text_{f}(*self), // [C10]
@start
    proof {{ reveal(crate::merge::text_{f}); }}
''')
w('''@@raw merge
''')
for t,f,s in FL:
    w(f'#[verifier::opaque] pub open spec fn text_{f}(o: crate::options::{t}) -> Seq<char> {{ if o is Enable {{ "{s}"@ }} else {{ ""@ }} }}\n')
    w(f'#[verifier::opaque] pub open spec fn f_{f}(o: MergeOptions, w: Seq<char>) -> nat {{ if o.{f} is Enable && w == "{s}"@ {{ 1 }} else {{ 0 }} }}\n')
w('pub open spec fn flags(o: MergeOptions, w: Seq<char>) -> nat { '+' + '.join(f'f_{f}(o, w)' for t,f,s in FL)+' }\n')
for t,f,s in FL:
    w(f'''pub proof fn lemma_{f}(o: MergeOptions)
    ensures forall|w: Seq<char>| #[trigger] times(w, text_{f}(o.{f})) == f_{f}(o, w)
{{ reveal(f_{f}); reveal(text_{f}); reveal_strlit("{s}"); reveal_strlit(""); if o.{f} is Enable {{ lemma_word_bag("{s}"@); }} else {{ lemma_blank(""@); }} }}
''')
w('''// every word of s is the flag of an enabled switch, each once
pub open spec fn switch_text(o: MergeOptions, s: Seq<char>) -> bool { forall|w: Seq<char>| #[trigger] times(w, s) == flags(o, w) }
pub open spec fn cmd_of(b: Seq<char>, names: Seq<char>, out: Seq<char>) -> Seq<char> { "wasm-merge "@ + b + " "@ + names + " -o "@ + out }
@@fn merge::<DefaultforMergeOptions<'_>>::default
@contract
    ensures r.primary is None, r.input_modules@.len() == 0, forall|w: Seq<char>| #[trigger] flags(r, w) == 0, // [C10]
@start
    proof { '''+''.join(f'reveal(f_{f}); ' for t,f,s in FL)+'''}
@@fn merge::MergeOptions<'_>::as_bash_arguments
@contract
    ensures switch_text(*self, r@), // [C10]
@start
    proof { '''+''.join(f'lemma_{f}(*self); ' for t,f,s in FL)+ 'reveal_strlit(" "); reveal_strlit("  "); lemma_blank(" "@); lemma_blank("  "@); ' +'''}
''')
w('''@@raw merge
use crate::vx_std::process::{ran, Output};
use crate::vx_tempfile::left_in;
// every module that has to reach the merger, in order
pub open spec fn mods<'a>(o: MergeOptions<'a>) -> Seq<InputModule<'a>> { (match o.primary { Some(p) => seq![p], None => seq![] }) + o.input_modules@ }
pub open spec fn pair(m: InputModule, f: NamedTempFile) -> Seq<char> { f.name() + " "@ + m.namespace@ }
pub open spec fn pairs(m: Seq<InputModule>, f: Seq<NamedTempFile>) -> Seq<Seq<char>>
    decreases m.len()
{ if m.len() == 0 { seq![] } else { pairs(m.drop_last(), f.drop_last()) + seq![f.last().name(), m.last().namespace@] } }
pub open spec fn files_ok(m: Seq<InputModule>, f: Seq<NamedTempFile>) -> bool {
    f.len() == m.len() && forall|i: int| 0 <= i < m.len() ==> (#[trigger] f[i]).content() == m[i].module@ && plain_word(f[i].name())
}
pub open spec fn plain_names(m: Seq<InputModule>) -> bool { forall|i: int| 0 <= i < m.len() ==> plain_word((#[trigger] m[i]).namespace@) }
pub open spec fn switches(o: MergeOptions, mid: Seq<Seq<char>>) -> bool { forall|w: Seq<char>| #[trigger] mid.to_multiset().count(w) == flags(o, w) }
// the command line hands over every module with its own namespace, and asks for the output in `out`
pub open spec fn handed(o: MergeOptions, cmd: Seq<char>, f: Seq<NamedTempFile>, mid: Seq<Seq<char>>, out: Seq<char>) -> bool {
    files_ok(mods(o), f) && switches(o, mid) && words(cmd) == seq!["wasm-merge"@] + mid + pairs(mods(o), f) + seq!["-o"@, out]
}
pub proof fn lemma_pairs(m: Seq<InputModule>, f: Seq<NamedTempFile>, v: Seq<Seq<char>>)
    requires files_ok(m, f), plain_names(m), v.len() == m.len(), forall|i: int| 0 <= i < m.len() ==> #[trigger] v[i] == pair(m[i], f[i])
    ensures words(joined(v, " "@)) == pairs(m, f)
    decreases m.len()
{
    reveal_strlit(" ");
    if m.len() == 0 { assert(words(joined(v, " "@)) =~= pairs(m, f)); }
    else {
        let p = m.last().namespace@;
        let n = f.last().name();
        assert(plain_word(n) && plain_word(p));
        assert(v.last() == pair(m.last(), f.last()));
        lemma_word(n); lemma_word(p); lemma_blank(" "@);
        lemma_words_app(n, " "@); lemma_words_app(n + " "@, p);
        assert(words(n + " "@ + p) =~= seq![n, p]);
        if m.len() == 1 { assert(pairs(m.drop_last(), f.drop_last()) =~= seq![]); assert(pairs(m, f) =~= seq![n, p]); }
        else {
            let r = joined(v.drop_last(), " "@);
            lemma_pairs(m.drop_last(), f.drop_last(), v.drop_last());
            lemma_words_app(r, " "@); lemma_words_app(r + " "@, v.last());
            assert(words(r) + words(" "@) =~= words(r));
        }
    }
}
pub proof fn lemma_command(o: MergeOptions, cmd: Seq<char>, bash: Seq<char>, names: Seq<char>, f: Seq<NamedTempFile>, out: Seq<char>)
    requires switch_text(o, bash), words(names) == pairs(mods(o), f), files_ok(mods(o), f), plain_word(out),
        cmd == cmd_of(bash, names, out),
    ensures handed(o, cmd, f, words(bash), out)
{
    reveal_strlit(" "); reveal_strlit(" -o "); reveal_strlit("wasm-merge "); reveal_strlit("wasm-merge"); reveal_strlit("-o");
    lemma_blank(" "@); lemma_word("wasm-merge"@); lemma_word("-o"@); lemma_word(out);
    let e = Seq::<Seq<char>>::empty();
    let a = "wasm-merge "@; let b = a + bash; let c = b + " "@; let d = c + names; let g = d + " -o "@;
    assert(a =~= "wasm-merge"@ + " "@); lemma_words_app("wasm-merge"@, " "@);
    assert(words(a) =~= seq!["wasm-merge"@]);
    lemma_words_app(a, bash);
    lemma_words_app(b, " "@);
    lemma_words_app(c, names);
    assert(" -o "@ =~= " "@ + "-o"@ + " "@);
    lemma_words_app(" "@, "-o"@); lemma_words_app(" "@ + "-o"@, " "@);
    assert(words(" -o "@) =~= seq!["-o"@]);
    lemma_words_app(d, " -o "@);
    lemma_words_app(g, out);
    assert(words(cmd) =~= seq!["wasm-merge"@] + words(bash) + pairs(mods(o), f) + seq!["-o"@, out]);
    assert forall|w: Seq<char>| #[trigger] words(bash).to_multiset().count(w) == flags(o, w) by { reveal(times); assert(times(w, bash) == flags(o, w)); }
}
pub open spec fn sh(cmd: Seq<char>) -> Seq<Seq<char>> { seq!["-c"@, cmd] }
@@fn merge::MergeOptions<'_>::merge
@contract
    ensures
      r is Ok ==> exists|a: Seq<Seq<char>>, o: Output| #[trigger] ran("bash"@, a, o) && o.status.ok() && o.stderr@.len() == 0, // [C12]
      r is Err && r->Err_0 is MergeExecutionFailedReason ==> exists|a: Seq<Seq<char>>, o: Output| #[trigger] ran("bash"@, a, o) && r->Err_0->MergeExecutionFailedReason_0@ == lossy(o.stderr@), // [C12]
      r is Ok && plain_names(mods(*self)) ==> exists|cmd: Seq<char>, o: Output, f: Seq<NamedTempFile>, mid: Seq<Seq<char>>, out: Seq<char>| #[trigger] ran("bash"@, sh(cmd), o) && #[trigger] handed(*self, cmd, f, mid, out) && r->Ok_0@ == left_in(out), // [C11]
@closure 0
ret (b: Vec<&InputModule<'_>>)
ensures b@ =~= seq![$0],
@closure 1
types &&InputModule<'_>
ret (b: Result<(&InputModule<'_>, String, NamedTempFile), Error>)
ensures b is Ok ==> *b->Ok_0.0 == **$0 && b->Ok_0.1@ == b->Ok_0.2.name() && b->Ok_0.2.content() == $0.module@ && plain_word(b->Ok_0.2.name()),
    b is Err ==> !(b->Err_0 is MergeExecutionFailedReason),
@closure 2
types &(&InputModule<'_>, String, NamedTempFile)
ret (b: String)
ensures b@ == $0.1@ + " "@ + $0.0.namespace@,
@after merges
let ghost files = Seq::new(merges@.len(), |i: int| merges@[i].2);
proof {
    assert(merges@.len() == mods(*self).len());
    assert(forall|i: int| 0 <= i < merges@.len() ==> *(#[trigger] merges@[i]).0 == mods(*self)[i]);
    assert(files_ok(mods(*self), files));
}
@after merge_name_combinations
proof {
    if plain_names(mods(*self)) {
        let v = Seq::new(merges@.len(), |i: int| pair(mods(*self)[i], files[i]));
        lemma_pairs(mods(*self), files, v);
        reveal_strlit(" ");
        assert(merge_name_combinations@ =~= joined(v, " "@));
    }
}
@after command_output
proof {
    assert(command_merge.argv() =~= sh(merge_command@));
    if plain_names(mods(*self)) {
        let names = merge_name_combinations@; let out = output_file_path@;
        assert(exists|b: Seq<char>| #[trigger] switch_text(*self, b) && merge_command@ =~= cmd_of(b, names, out));
        let b = choose|b: Seq<char>| #[trigger] switch_text(*self, b) && merge_command@ =~= cmd_of(b, names, out);
        lemma_command(*self, merge_command@, b, names, files, out);
    }
}
''')
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'merge.vu'),'w').write(''.join(o))
