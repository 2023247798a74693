From 3dcd6e647dbfb17b9f3444b5d3619514204c0921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:00 +0000
Subject: [PATCH 1/4] fix: accept specialised apply conversions without
 arguments (capacity underflow)

---
 wasp-compiler/src/ast/wasp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wasp-compiler/src/ast/wasp.rs b/wasp-compiler/src/ast/wasp.rs
index 5b94043..4629d2f 100644
--- a/wasp-compiler/src/ast/wasp.rs
+++ b/wasp-compiler/src/ast/wasp.rs
@@ -574,7 +574,7 @@ impl WasmParameterVec {
         parameters_1: &[WasmParameter],
         parameters_2: &[WasmParameter],
     ) -> Result<(), crate::Error> {
-        let mut parameters: HashSet<String> = HashSet::with_capacity(parameters_1.len() - 1);
+        let mut parameters: HashSet<String> = HashSet::with_capacity(parameters_1.len());
         for parameter in parameters_1.iter().chain(parameters_2.iter()) {
             if parameters.contains(parameter.identifier.as_str()) {
                 return Err(Error::DuplicateArgsRessParameter(
-- 
2.43.0


From 2d1c5c99f464c34d4b7305312b5334033a3caf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:00 +0000
Subject: [PATCH 2/4] fix: report a failing merge that writes nothing to stderr
 as an error

---
 wasm-merge/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wasm-merge/src/lib.rs b/wasm-merge/src/lib.rs
index 94bbfb9..ae85719 100644
--- a/wasm-merge/src/lib.rs
+++ b/wasm-merge/src/lib.rs
@@ -136,7 +136,7 @@ impl MergeOptions<'_> {
             .output()
             .map_err(Error::MergeExecutionFailed)?;
 
-        if !command_output.stderr.is_empty() {
+        if !command_output.status.success() || !command_output.stderr.is_empty() {
             let std_err_string = String::from_utf8_lossy(&command_output.stderr).to_string();
             return Err(Error::MergeExecutionFailedReason(std_err_string));
         }
-- 
2.43.0


From 4f3f57222078b5cbbf097f3642703dd29706d81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:21 +0000
Subject: [PATCH 3/4] fix: match guest blocks atomically so comments inside
 guest code stay guest code

---
 wasp-compiler/wasp.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wasp-compiler/wasp.pest b/wasp-compiler/wasp.pest
index 185c18b..5bd6030 100644
--- a/wasp-compiler/wasp.pest
+++ b/wasp-compiler/wasp.pest
@@ -9,7 +9,7 @@ wasp_input = { SOI ~ wasp ~ EOI }
 wasp       = { "(" ~ "aspect" ~ ("(" ~ advice_definition ~ ")")* ~ ")" }
 
 // Guest language block, currently hardcoded AssemblyScript
-GUEST_BLOCK = { ">>>GUEST>>>" ~ (!"<<<GUEST<<<" ~ ANY)* ~ "<<<GUEST<<<" }
+GUEST_BLOCK = @{ ">>>GUEST>>>" ~ (!"<<<GUEST<<<" ~ ANY)* ~ "<<<GUEST<<<" }
 
 // Advice definitions
 advice_definition = { advice_global | advice_trap }
-- 
2.43.0


From 53323e66934e74c5e94d92a1a8b7b8b9a7eee046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 4/4] fix: report a body with unclosed blocks as an error
 instead of panicking

---
 wastrumentation/src/parse_nesting/high_level_body.rs         | 5 +++--
 wastrumentation/src/parse_nesting/typed_high_level_body.rs   | 5 +++--
 .../src/parse_nesting/typed_high_level_body_error.rs         | 2 ++
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/wastrumentation/src/parse_nesting/high_level_body.rs b/wastrumentation/src/parse_nesting/high_level_body.rs
index 926a02e..f376170 100644
--- a/wastrumentation/src/parse_nesting/high_level_body.rs
+++ b/wastrumentation/src/parse_nesting/high_level_body.rs
@@ -201,8 +201,9 @@ impl TryFrom<LowLevelBody> for Body {
             };
         }
 
-        assert!(entered_stack.is_empty());
-        assert!(body_stack.is_empty());
+        if !entered_stack.is_empty() || !body_stack.is_empty() {
+            return Err(LowToHighError::MissingEnd);
+        }
         Ok(Body(current_body))
     }
 }
diff --git a/wastrumentation/src/parse_nesting/typed_high_level_body.rs b/wastrumentation/src/parse_nesting/typed_high_level_body.rs
index 4d7f8ac..160acbd 100644
--- a/wastrumentation/src/parse_nesting/typed_high_level_body.rs
+++ b/wastrumentation/src/parse_nesting/typed_high_level_body.rs
@@ -364,8 +364,9 @@ impl TryFrom<(&Module, &Function, &Code, &Idx<Function>)> for Body {
             };
         }
 
-        assert!(entered_stack.is_empty());
-        assert!(body_stack.is_empty());
+        if !entered_stack.is_empty() || !body_stack.is_empty() {
+            return Err(LowToHighError::MissingEnd);
+        }
         Ok(Body(current_body))
     }
 }
diff --git a/wastrumentation/src/parse_nesting/typed_high_level_body_error.rs b/wastrumentation/src/parse_nesting/typed_high_level_body_error.rs
index 819e90e..9940022 100644
--- a/wastrumentation/src/parse_nesting/typed_high_level_body_error.rs
+++ b/wastrumentation/src/parse_nesting/typed_high_level_body_error.rs
@@ -10,6 +10,8 @@ pub enum LowToHighError {
     IfDidNotPrecedeElse,
     #[error("too many `End`s")]
     ExcessiveEnd,
+    #[error("too few `End`s")]
+    MissingEnd,
     #[error("no parent for `End` bytecode")]
     EndWithoutParent,
     #[error("attempt to perform 'trivial' cast from low level to high level")]
-- 
2.43.0

