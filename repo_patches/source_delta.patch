From 91f7e53e4fcfa96e6c670acf1056b8b4ac673f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:45 +0000
Subject: [PATCH 01/23] fix: decode BKPT as a 16-bit Thumb instruction

BKPT (T1) is encoded as 1011_1110_imm8. It was matched as 1010_1110_imm8, so
`bkpt` fell through to the 32-bit decoder which swallowed the halfword that
follows it and e.g. missed a `bl` placed right after it.
---
 src/thumb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index 573cc4b..e3fe8e4 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -168,7 +168,7 @@ pub fn analyze(
         } else if matches(first, "0b010000_1110_xxx_xxx") {
             // A7.7.16  BIC (register) - T1
             continue;
-        } else if matches(first, "0b1010_1110_xxxxxxxx") {
+        } else if matches(first, "0b1011_1110_xxxxxxxx") {
             // A7.7.17  BKPT - T1
             continue;
         } else if matches(first, "0b010001_11_1_xxxx_000") {
-- 
2.43.0


From 6b4e4ab01f86c4cffc64b9560e697c3b0ec28b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 02/23] fix: use the J2:J1 order in the offset of conditional
 wide branches (B T3)

---
 src/thumb.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index e3fe8e4..b3e9bdc 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -468,8 +468,8 @@ pub fn analyze(
                 let j2 = second[1] & (1 << 3) != 0;
                 let imm11 = (i32::from(second[1] & 0b111) << 8) | second[0] as i32;
                 let imm21 = (if s { 1 } else { 0 } << 20)
-                    | (if j1 { 1 } else { 0 } << 19)
-                    | (if j2 { 1 } else { 0 } << 18)
+                    | (if j2 { 1 } else { 0 } << 19)
+                    | (if j1 { 1 } else { 0 } << 18)
                     | (imm6 << 12)
                     | (imm11 << 1);
 
-- 
2.43.0


From 33e2d65de64a9de7b49f555b6cb1dc0341a9a8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 03/23] fix: expand Thumb modified immediates of the form
 0x00XY00XY

---
 src/thumb.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index b3e9bdc..7ada83b 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -600,7 +600,10 @@ fn thumb_expand_imm(imm12: u16) -> u32 {
         match (imm12 >> 8) & 0b0011 {
             0b00 => u32::from(imm12 & 0b0000_1111_1111),
 
-            0b01 => u32::from(imm12 & 0b0000_1111_1111) << 8,
+            0b01 => {
+                let imm8 = u32::from(imm12 & 0b0000_1111_1111);
+                (imm8 << 16) | imm8
+            }
 
             0b10 => {
                 let imm8 = u32::from(imm12 & 0b0000_1111_1111);
-- 
2.43.0


From eef5a68b63e00cfd5658d4ba8ee36a23ebc1fcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 04/23] fix: recognize `subw sp, sp, #imm12` as a stack
 allocation

---
 src/thumb.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/thumb.rs b/src/thumb.rs
index 7ada83b..0cc77ac 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -424,6 +424,25 @@ pub fn analyze(
                         *stack += u64::from(imm32);
                     }
                 }
+            } else if v7
+                && matches(first, "0b11110_x_1_0101_0_1101")
+                && matches(second, "0b0_xxx_xxxx_xxxxxxxx")
+            {
+                // A7.7.173      SUB (SP minus immediate) - T3
+                // e.g. 'f6ad 0d04       subw    sp, sp, #2052   ; 0x804'
+                let rd = second[1] & 0b1111;
+                if rd == SP {
+                    modifies_sp = true;
+
+                    let imm8 = second[0];
+                    let imm3 = (second[1] >> 4) & 0b0111;
+                    let i = (first[1] >> 2) & 1;
+                    let imm12 = (u16::from(i) << 11) | (u16::from(imm3) << 8) | u16::from(imm8);
+
+                    if let Some(stack) = stack.as_mut() {
+                        *stack += u64::from(imm12);
+                    }
+                }
             } else if v7
                 && matches(first, "0b1110_110_1_0_x_1_0_1101")
                 && matches(second, "0bxxxx_1011_xxxxxxxx")
-- 
2.43.0


From 1bf2784f567779ffc17be772e83c42ec012c27e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 05/23] fix: STMDB without writeback does not modify SP

---
 src/thumb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index 0cc77ac..ee6ce3f 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -386,7 +386,7 @@ pub fn analyze(
             const SP: u8 = 0b1101;
 
             if v7
-                && matches(first, "0b11101_00_100_x_0_xxxx")
+                && matches(first, "0b11101_00_100_1_0_xxxx")
                 && matches(second, "0b0_x_0_xxxxxxxxxxxxx")
             {
                 // A7.7.157      STMDB, STMFD
-- 
2.43.0


From b4ec0ea935b96354101671ba5242c01a56cf6692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 06/23] fix: don't panic on consecutive `$d` tags

---
 src/thumb.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index ee6ce3f..3ab4955 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -56,14 +56,13 @@ pub fn analyze(
             if tags[needle].1 == Tag::Data {
                 // start of a data section
 
-                if let Some(tag) = tags.get(needle + 1) {
-                    assert_eq!(
-                        tag.1,
-                        Tag::Thumb,
-                        "BUG: expected a thumb tag at {:#10x} but found another data tag",
-                        tag.0
-                    );
+                // NOTE consecutive data tags denote a single, larger data section
+                let mut next = needle + 1;
+                while next < tags.len() && tags[next].1 == Tag::Data {
+                    next += 1;
+                }
 
+                if let Some(tag) = tags.get(next) {
                     // skip the data section
                     let end = tag.0;
                     // NOTE the range starts at 1 because we'll skip `first` using the `continue`
-- 
2.43.0


From 4f1a15c9b5ebaec42a36a441853fd6823535a11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 07/23] fix: `llvm.memmove` lowers to memmove, not memset;
 handle the `*8` variants

---
 src/main.rs | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 36c34a0..9dd35c2 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -643,12 +643,32 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                             call(*callee);
                         }
 
+                        if let Some(callee) = indices.get("__aeabi_memcpy8") {
+                            call(*callee);
+                        }
+
+                        continue;
+                    }
+
+                    if func.starts_with("llvm.memmove.") {
+                        for name in [
+                            "memmove",
+                            // ARMv7-R and the like use these
+                            "__aeabi_memmove",
+                            "__aeabi_memmove4",
+                            "__aeabi_memmove8",
+                        ] {
+                            if let Some(callee) = indices.get(name) {
+                                call(*callee);
+                            }
+                        }
+
                         continue;
                     }
 
                     // TODO? consider alignment and `value` argument to only include one edge
                     // TODO? consider the `len` argument to elide the call to `*mem*`
-                    if func.starts_with("llvm.memset.") || func.starts_with("llvm.memmove.") {
+                    if func.starts_with("llvm.memset.") {
                         if let Some(callee) = indices.get("memset") {
                             call(*callee);
                         }
@@ -662,6 +682,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                             call(*callee);
                         }
 
+                        if let Some(callee) = indices.get("__aeabi_memset8") {
+                            call(*callee);
+                        }
+
                         if let Some(callee) = indices.get("memclr") {
                             call(*callee);
                         }
@@ -674,6 +698,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                             call(*callee);
                         }
 
+                        if let Some(callee) = indices.get("__aeabi_memclr8") {
+                            call(*callee);
+                        }
+
                         continue;
                     }
 
-- 
2.43.0


From 12619be5adb88fb66e55744e71c11307da4432f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 08/23] fix: resolve aliases and avoid duplicate edges in
 bitcast calls

---
 src/main.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 9dd35c2..c52f0dd 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -579,7 +579,9 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                     // try harder -- does this ever occur in pure Rust programs?
 
                     let sym = sym.expect("BUG? unnamed symbol is being invoked");
-                    let callee = if let Some(idx) = indices.get(sym) {
+                    let callee = if let Some(canon) = aliases.get(sym) {
+                        indices[*canon]
+                    } else if let Some(idx) = indices.get(sym) {
                         *idx
                     } else {
                         warn!("no stack information for `{}`", sym);
@@ -589,7 +591,9 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                         idx
                     };
 
-                    g.add_edge(caller, callee, ());
+                    if callees_seen.insert(callee) {
+                        g.add_edge(caller, callee, ());
+                    }
                 }
 
                 Stmt::DirectCall(func) => {
-- 
2.43.0


From 4eb0de2307824c687b9a4b5d67cd22125a2d1a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 09/23] fix: don't drop indirect calls that only untyped
 symbols can satisfy

---
 src/main.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index c52f0dd..c08feae 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -782,12 +782,21 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                 }
 
                 Stmt::IndirectCall(sig) => {
+                    let mut matched = false;
                     for (key_sig, indirect) in &mut indirects {
                         if key_sig.loosely_equal(sig) {
+                            matched = true;
                             indirect.called = true;
                             indirect.callers.insert(caller);
                         }
                     }
+
+                    // no known function has this signature but an untyped symbol may
+                    if !matched && has_untyped_symbols {
+                        let indirect = indirects.entry(sig.clone()).or_default();
+                        indirect.called = true;
+                        indirect.callers.insert(caller);
+                    }
                 }
 
                 Stmt::Label | Stmt::Comment | Stmt::Other => {}
-- 
2.43.0


From b14caca98985a637be295ccdb02d16dc4253c36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 10/23] fix: match the whole path of the start point, not just
 a prefix

---
 src/main.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index c08feae..6a37f2a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1109,14 +1109,11 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     if let Some(start) = &args.start {
         let start: &str = start;
         let start = indices.get(start).cloned().or_else(|| {
-            let start_ = start.to_owned() + "::h";
             let hits = indices
                 .keys()
                 .filter_map(|key| {
-                    if rustc_demangle::demangle(key)
-                        .to_string()
-                        .starts_with(&start_)
-                    {
+                    let demangled = rustc_demangle::demangle(key).to_string();
+                    if dehash(&demangled) == Some(start) {
                         Some(key)
                     } else {
                         None
-- 
2.43.0


From 710fc373d209d4186c3f4e375d655919de4ef1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 11/23] fix: take undefined symbols into account when
 shortening names

---
 src/main.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 6a37f2a..bbc113f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -503,11 +503,6 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
             has_stack_usage_info = true;
         }
 
-        let demangled = rustc_demangle::demangle(canonical_name).to_string();
-        if let Some(dehashed) = dehash(&demangled) {
-            *ambiguous.entry(dehashed.to_string()).or_insert(0) += 1;
-        }
-
         let idx = g.add_node(Node(canonical_name, stack, false));
         indices.insert(canonical_name.into(), idx);
 
@@ -1105,6 +1100,13 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         }
     }
 
+    for node in g.node_weights() {
+        let demangled = rustc_demangle::demangle(&node.name).to_string();
+        if let Some(dehashed) = dehash(&demangled) {
+            *ambiguous.entry(dehashed.to_string()).or_insert(0) += 1;
+        }
+    }
+
     // filter the call graph
     if let Some(start) = &args.start {
         let start: &str = start;
-- 
2.43.0


From 0913f1168624b77498c218e47dff2b07e72c0cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 12/23] fix: only strip actual hashes from symbol names

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index bbc113f..8407d43 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1541,7 +1541,8 @@ fn dehash(demangled: &str) -> Option<&str> {
     if len > HASH_LENGTH {
         if demangled
             .get(len - HASH_LENGTH..)
-            .map(|hash| hash.starts_with("::h"))
+            .and_then(|hash| hash.strip_prefix("::h"))
+            .map(|hash| hash.bytes().all(|byte| byte.is_ascii_hexdigit()))
             .unwrap_or(false)
         {
             Some(&demangled[..len - HASH_LENGTH])
-- 
2.43.0


From 2ed50c8dea9948e6190b989231a7e06098bd9d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 13/23] fix: don't silently ignore `invoke` statements

---
 src/ir/define.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ir/define.rs b/src/ir/define.rs
index c943530..a46170b 100644
--- a/src/ir/define.rs
+++ b/src/ir/define.rs
@@ -129,7 +129,7 @@ fn asm(i: &str) -> IResult<&str, Stmt> {
         space1(i)
     })(i)?
     .0;
-    let i = tag("call")(i)?.0;
+    let i = alt((tag("call"), tag("invoke")))(i)?.0;
     let i = space1(i)?.0;
     let i = alt((map(super::type_, drop), map(tag("void"), drop)))(i)?.0;
     let i = space1(i)?.0;
@@ -184,7 +184,7 @@ fn bitcast_call(i: &str) -> IResult<&str, Stmt> {
         space1(i)
     })(i)?
     .0;
-    let i = tag("call")(i)?.0;
+    let i = alt((tag("call"), tag("invoke")))(i)?.0;
     let i = space1(i)?.0;
 
     let i = many0(|i| {
@@ -266,7 +266,7 @@ fn other(i: &str) -> IResult<&str, Stmt> {
     let i = separated_list1(
         space1,
         map_res(is_not(" \t\r\n"), |i| {
-            if i == "call" {
+            if i == "call" || i == "invoke" {
                 Err(())
             } else {
                 Ok(())
-- 
2.43.0


From 69101da9e7e9d0fdc12254c86aff970eb79cae64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 14/23] fix: register the signatures of all the aliases of a
 function

Only the signature of the first alias with a definition was known, so indirect calls through the
signatures of its other aliases did not include the function.
---
 src/main.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 8407d43..4d20af7 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -506,7 +506,11 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         let idx = g.add_node(Node(canonical_name, stack, false));
         indices.insert(canonical_name.into(), idx);
 
-        if let Some(def) = names.iter().filter_map(|name| defines.get(name)).next() {
+        // aliases of a function may have different signatures; it can be called through all of them
+        let mut is_typed = false;
+        for def in names.iter().filter_map(|name| defines.get(name)) {
+            is_typed = true;
+
             // if the signature is `fn(&_, &mut fmt::Formatter) -> fmt::Result`
             match (&def.sig.inputs[..], def.sig.output.as_ref()) {
                 ([Type::Pointer(..), Type::Pointer(fmt)], Some(output))
@@ -524,13 +528,17 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                 .or_default()
                 .callees
                 .insert(idx);
-        } else if let Some(sig) = names
+        }
+
+        for sig in names
             .iter()
             .filter_map(|name| declares.get(name).and_then(|decl| decl.sig.clone()))
-            .next()
         {
+            is_typed = true;
             indirects.entry(sig).or_default().callees.insert(idx);
-        } else if !is_outlined_function(canonical_name) {
+        }
+
+        if !is_typed && !is_outlined_function(canonical_name) {
             // ^ functions produced by LLVM's function outliner are never called through function
             // pointers (as of LLVM 14.0.6)
             has_untyped_symbols = true;
-- 
2.43.0


From a0a2f149d845610041280f59992bdb263f25bb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 15/23] fix: escape backslashes in labels

A backslash before a double quote ended the label early.
---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 4d20af7..5da9646 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1417,7 +1417,7 @@ where
     fn write_char(&mut self, c: char) -> fmt::Result {
         match (|| -> io::Result<()> {
             match c {
-                '"' => write!(self.writer, "\\")?,
+                '"' | '\\' => write!(self.writer, "\\")?,
                 _ => {}
             }
 
-- 
2.43.0


From 704aa9e86859d3d94bc8cec20f4c0c1378051d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 16/23] fix: keep the pointer when canonicalizing the signature
 of ArgumentV1.formatter

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 5da9646..8f8b0e3 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1071,7 +1071,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
 
                     // canonicalize the signature
                     if one_true_void != "fmt::Void" {
-                        sig.inputs[0] = Type::Alias("fmt::Void");
+                        sig.inputs[0] = Type::Pointer(Box::new(Type::Alias("fmt::Void")));
                     }
 
                     &fmts
-- 
2.43.0


From d96e00968f5be2ba5b0a5597a1b50da27d9fb520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 17/23] fix: use the complete type of variadic callees in
 indirect calls

---
 src/ir/define.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/ir/define.rs b/src/ir/define.rs
index a46170b..17dd69f 100644
--- a/src/ir/define.rs
+++ b/src/ir/define.rs
@@ -253,13 +253,15 @@ fn indirect_call(i: &str) -> IResult<&str, Stmt> {
     // TODO we likely want to parse the metadata (`!dbg !0`) that comes after the argument list
     // NOTE shortcut
     let i = not_line_ending(i)?.0;
-    Ok((
-        i,
-        Stmt::IndirectCall(FnSig {
+    let sig = match output {
+        // the complete function type is spelled out when the callee is variadic
+        Some(Type::Fn(sig)) => sig,
+        output => FnSig {
             inputs,
             output: output.map(Box::new),
-        }),
-    ))
+        },
+    };
+    Ok((i, Stmt::IndirectCall(sig)))
 }
 
 fn other(i: &str) -> IResult<&str, Stmt> {
-- 
2.43.0


From 88e7e7fcf864235287d2bed712df0e7a84bb4348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:24 +0000
Subject: [PATCH 18/23] fix: declared functions may also be called through
 ArgumentV1.formatter

---
 src/main.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 8f8b0e3..1c3070f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -508,11 +508,17 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
 
         // aliases of a function may have different signatures; it can be called through all of them
         let mut is_typed = false;
-        for def in names.iter().filter_map(|name| defines.get(name)) {
+        let defined_sigs = names
+            .iter()
+            .filter_map(|name| defines.get(name).map(|def| &def.sig));
+        let declared_sigs = names
+            .iter()
+            .filter_map(|name| declares.get(name).and_then(|decl| decl.sig.as_ref()));
+        for sig in defined_sigs.chain(declared_sigs) {
             is_typed = true;
 
             // if the signature is `fn(&_, &mut fmt::Formatter) -> fmt::Result`
-            match (&def.sig.inputs[..], def.sig.output.as_ref()) {
+            match (&sig.inputs[..], sig.output.as_ref()) {
                 ([Type::Pointer(..), Type::Pointer(fmt)], Some(output))
                     if **fmt == Type::Alias("core::fmt::Formatter")
                         && **output == Type::Integer(1) =>
@@ -524,20 +530,12 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
             }
 
             indirects
-                .entry(def.sig.clone())
+                .entry(sig.clone())
                 .or_default()
                 .callees
                 .insert(idx);
         }
 
-        for sig in names
-            .iter()
-            .filter_map(|name| declares.get(name).and_then(|decl| decl.sig.clone()))
-        {
-            is_typed = true;
-            indirects.entry(sig).or_default().callees.insert(idx);
-        }
-
         if !is_typed && !is_outlined_function(canonical_name) {
             // ^ functions produced by LLVM's function outliner are never called through function
             // pointers (as of LLVM 14.0.6)
-- 
2.43.0


From 5fb127ce8cddc0188032e59b180d436f228941e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:21 +0000
Subject: [PATCH 19/23] fix: match indirect calls only against the signatures
 of known functions

Signatures of calls that only untyped symbols can satisfy were matched too, so the graph depended on the
iteration order of the functions.
---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 1c3070f..d793683 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -785,7 +785,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                 Stmt::IndirectCall(sig) => {
                     let mut matched = false;
                     for (key_sig, indirect) in &mut indirects {
-                        if key_sig.loosely_equal(sig) {
+                        if !indirect.callees.is_empty() && key_sig.loosely_equal(sig) {
                             matched = true;
                             indirect.called = true;
                             indirect.callers.insert(caller);
-- 
2.43.0


From 2ddad8d71a6d06427e61f979f1c3a91292cabb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:51 +0000
Subject: [PATCH 20/23] fix: CBZ and CBNZ are branches; give up the stack usage
 analysis

---
 src/thumb.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/thumb.rs b/src/thumb.rs
index 3ab4955..5b3f1dd 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -183,6 +183,14 @@ pub fn analyze(
             }
         } else if v7 && matches(first, "0b1011_x_0_x_1_xxxxx_xxx") {
             // A7.7.21  CBNZ, CBZ - T1
+            let imm6 = (i32::from((first[1] >> 1) & 1) << 6) | (i32::from(first[0] >> 3) << 1);
+            let imm32 = imm6 + 2 * i + 4;
+
+            if (imm32 as usize) < bytes.len() {
+                // this is an `if`; give up the stack usage analysis
+                stack = None;
+            }
+
             continue;
         } else if matches(first, "0b010000_1011_xxx_xxx") {
             // A7.7.26  CMN (register) - T1
-- 
2.43.0


From 1f8b46c03af10411ce8dcb583d3d4c3897be8db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:33 +0000
Subject: [PATCH 21/23] fix: look functions up by any of their names

Memory intrinsics, `memcmp` and the start point were only matched against the
canonical name of each function, so a function that has the name as an alias
was not found.
---
 src/main.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index d793683..253dc10 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -504,7 +504,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         }
 
         let idx = g.add_node(Node(canonical_name, stack, false));
-        indices.insert(canonical_name.into(), idx);
+        // a function can be looked up by any of its names
+        for name in names.iter().copied() {
+            indices.insert(name.into(), idx);
+        }
 
         // aliases of a function may have different signatures; it can be called through all of them
         let mut is_typed = false;
@@ -1117,23 +1120,24 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     if let Some(start) = &args.start {
         let start: &str = start;
         let start = indices.get(start).cloned().or_else(|| {
+            // NOTE the names of an aliased function count as a single match
             let hits = indices
-                .keys()
-                .filter_map(|key| {
+                .iter()
+                .filter_map(|(key, idx)| {
                     let demangled = rustc_demangle::demangle(key).to_string();
                     if dehash(&demangled) == Some(start) {
-                        Some(key)
+                        Some((*idx, key))
                     } else {
                         None
                     }
                 })
-                .collect::<Vec<_>>();
+                .collect::<BTreeMap<_, _>>();
 
             if hits.len() > 1 {
-                error!("multiple matches for `{}`: {:?}", start, hits);
+                error!("multiple matches for `{}`: {:?}", start, hits.values());
                 None
             } else {
-                hits.first().map(|key| indices[*key])
+                hits.keys().next().copied()
             }
         });
 
-- 
2.43.0


From 253ab7b6a7d6b7a223043c7243ea66bfd0b582e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:59 +0000
Subject: [PATCH 22/23] fix: recognise compiler_builtins behind any --extern
 option prefix

---
 src/wrapper.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/wrapper.rs b/src/wrapper.rs
index 5d0b5f4..a977ccc 100644
--- a/src/wrapper.rs
+++ b/src/wrapper.rs
@@ -71,7 +71,6 @@ struct Extern {
 
 impl RustcArgs {
     fn parse(args: &mut dyn Iterator<Item = &str>) -> anyhow::Result<Self> {
-        const NOPRELUDE: &str = "noprelude:";
         const DASH_C: &str = "-C";
 
         let mut extra_filename = None;
@@ -85,15 +84,14 @@ impl RustcArgs {
                     let arg = args
                         .next()
                         .ok_or_else(|| anyhow!("missing argument for `--extern`"))?;
-                    let mut arg = &*arg;
-                    if arg.starts_with(NOPRELUDE) {
-                        arg = &arg[NOPRELUDE.len()..];
-                    }
 
                     let mut split = arg.splitn(2, '=');
                     let name = split.next().unwrap(); // cannot fail
                     let path = split.next();
 
+                    // skip the option prefix: `noprelude:`, `priv:`, `noprelude,priv:`, ..
+                    let name = name.split_once(':').map_or(name, |(_options, name)| name);
+
                     extern_crates.push(Extern {
                         crate_name: name.to_string(),
                         path: path.map(ToString::to_string),
-- 
2.43.0


From 3aa8df9ff9f7fe32a4ead71d1a45ecc0cefd8c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:35 +0000
Subject: [PATCH 23/23] fix: the application's own functions replace those of
 compiler_builtins

---
 src/main.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 253dc10..df0fcd1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -336,7 +336,8 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     })?;
     let mut defines = HashMap::new();
     let mut declares = HashMap::new();
-    for item in items.into_iter().chain(compiler_builtins_items) {
+    // the application's own `memcpy`, `memset`, etc. replace those of `compiler_builtins` (weak symbols)
+    for item in compiler_builtins_items.into_iter().chain(items) {
         match item {
             Item::Define(def) => {
                 defines.insert(def.name, def);
@@ -383,11 +384,9 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         {
             buf.clear();
             entry.read_to_end(&mut buf)?;
-            stack_sizes.extend(
-                stack_sizes::analyze_object(&buf)?
-                    .into_iter()
-                    .map(|(name, stack)| (name.to_owned(), stack)),
-            );
+            for (name, stack) in stack_sizes::analyze_object(&buf)? {
+                stack_sizes.entry(name.to_owned()).or_insert(stack);
+            }
         }
     }
 
-- 
2.43.0

