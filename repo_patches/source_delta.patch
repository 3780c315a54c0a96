From e17b7a6139f8b947a955e017fff9d21c1e679f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:04 +0000
Subject: [PATCH 01/18] fix: add the edges of llvm.mem* intrinsics to the
 routines that really implement them

llvm.memmove was treated like llvm.memset, the 8-byte aligned AEABI variants were
missing, and routines known under an alias or undefined in the ELF were ignored.
---
 src/main.rs | 82 +++++++++++++++++++++++++++++------------------------
 1 file changed, 45 insertions(+), 37 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 36c34a0..cb13680 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -614,65 +614,73 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                         continue;
                     }
 
-                    let mut call = |callee| {
-                        if !callees_seen.contains(&callee) {
-                            g.add_edge(caller, callee, ());
-                            callees_seen.insert(callee);
-                        }
-                    };
-
                     if target_.is_thumb() && func.starts_with("llvm.") {
                         // we'll analyze the machine code in the ELF file to figure out what these
                         // lower to
                         continue;
                     }
 
+                    // call one of the routines that may implement a `llvm.mem*` intrinsic
+                    let mut call = |routine: &'static str| {
+                        // use canonical name
+                        let callee = if let Some(canon) = aliases.get(routine) {
+                            indices[*canon]
+                        } else if !symbols.undefined.contains(routine) {
+                            return;
+                        } else if let Some(idx) = indices.get(routine) {
+                            *idx
+                        } else {
+                            let idx = g.add_node(Node(routine, None, false));
+                            indices.insert(routine.into(), idx);
+
+                            idx
+                        };
+
+                        if !callees_seen.contains(&callee) {
+                            g.add_edge(caller, callee, ());
+                            callees_seen.insert(callee);
+                        }
+                    };
+
                     // TODO? consider alignment and `value` argument to only include one edge
                     // TODO? consider the `len` argument to elide the call to `*mem*`
                     if func.starts_with("llvm.memcpy.") {
-                        if let Some(callee) = indices.get("memcpy") {
-                            call(*callee);
-                        }
+                        call("memcpy");
 
                         // ARMv7-R and the like use these
-                        if let Some(callee) = indices.get("__aeabi_memcpy") {
-                            call(*callee);
-                        }
-
-                        if let Some(callee) = indices.get("__aeabi_memcpy4") {
-                            call(*callee);
-                        }
+                        call("__aeabi_memcpy");
+                        call("__aeabi_memcpy4");
+                        call("__aeabi_memcpy8");
 
                         continue;
                     }
 
                     // TODO? consider alignment and `value` argument to only include one edge
                     // TODO? consider the `len` argument to elide the call to `*mem*`
-                    if func.starts_with("llvm.memset.") || func.starts_with("llvm.memmove.") {
-                        if let Some(callee) = indices.get("memset") {
-                            call(*callee);
-                        }
+                    if func.starts_with("llvm.memmove.") {
+                        call("memmove");
 
                         // ARMv7-R and the like use these
-                        if let Some(callee) = indices.get("__aeabi_memset") {
-                            call(*callee);
-                        }
-
-                        if let Some(callee) = indices.get("__aeabi_memset4") {
-                            call(*callee);
-                        }
+                        call("__aeabi_memmove");
+                        call("__aeabi_memmove4");
+                        call("__aeabi_memmove8");
 
-                        if let Some(callee) = indices.get("memclr") {
-                            call(*callee);
-                        }
+                        continue;
+                    }
 
-                        if let Some(callee) = indices.get("__aeabi_memclr") {
-                            call(*callee);
-                        }
+                    // TODO? consider alignment and `value` argument to only include one edge
+                    // TODO? consider the `len` argument to elide the call to `*mem*`
+                    if func.starts_with("llvm.memset.") {
+                        call("memset");
 
-                        if let Some(callee) = indices.get("__aeabi_memclr4") {
-                            call(*callee);
-                        }
+                        // ARMv7-R and the like use these
+                        call("__aeabi_memset");
+                        call("__aeabi_memset4");
+                        call("__aeabi_memset8");
+                        call("memclr");
+                        call("__aeabi_memclr");
+                        call("__aeabi_memclr4");
+                        call("__aeabi_memclr8");
 
                         continue;
                     }
-- 
2.43.0


From 308df2181ca98490c49b670751f0e04d5279e34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:07 +0000
Subject: [PATCH 02/18] fix: do not drop calls to memcmp when it is an alias or
 an undefined symbol

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index cb13680..2609ae8 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -727,7 +727,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                     // if the intrinsic has no corresponding node (symbol in the output ELF) assume
                     // that it has been lowered to machine code
                     const SYMBOLLESS_INTRINSICS: &[&str] = &["memcmp"];
-                    if SYMBOLLESS_INTRINSICS.contains(func) && !indices.contains_key(*func) {
+                    if SYMBOLLESS_INTRINSICS.contains(func)
+                        && !aliases.contains_key(func)
+                        && !symbols.undefined.contains(func)
+                    {
                         continue;
                     }
 
-- 
2.43.0


From 68cb3cbfeab4ddeef510ae02ee9fc8c39be1049b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:10 +0000
Subject: [PATCH 03/18] fix: resolve aliases in calls of cast symbols and do
 not add parallel edges

---
 src/main.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 2609ae8..96a725a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -579,7 +579,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                     // try harder -- does this ever occur in pure Rust programs?
 
                     let sym = sym.expect("BUG? unnamed symbol is being invoked");
-                    let callee = if let Some(idx) = indices.get(sym) {
+                    // use canonical name
+                    let callee = if let Some(canon) = aliases.get(sym) {
+                        indices[*canon]
+                    } else if let Some(idx) = indices.get(sym) {
                         *idx
                     } else {
                         warn!("no stack information for `{}`", sym);
@@ -589,7 +592,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                         idx
                     };
 
-                    g.add_edge(caller, callee, ());
+                    if !callees_seen.contains(&callee) {
+                        callees_seen.insert(callee);
+                        g.add_edge(caller, callee, ());
+                    }
                 }
 
                 Stmt::DirectCall(func) => {
-- 
2.43.0


From 58e333c4e328f51eac11bf5bb6ec7f289bdad476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:54 +0000
Subject: [PATCH 04/18] fix: do not take the last path segment for a hash when
 it is not one

---
 src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 96a725a..b1ff8a1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1518,7 +1518,9 @@ fn dehash(demangled: &str) -> Option<&str> {
     if len > HASH_LENGTH {
         if demangled
             .get(len - HASH_LENGTH..)
-            .map(|hash| hash.starts_with("::h"))
+            .map(|hash| {
+                hash.starts_with("::h") && hash["::h".len()..].bytes().all(|b| b.is_ascii_hexdigit())
+            })
             .unwrap_or(false)
         {
             Some(&demangled[..len - HASH_LENGTH])
-- 
2.43.0


From 58fe864a7aa02bc8ec30f896814b1de7284d4ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:55 +0000
Subject: [PATCH 05/18] fix: symbols that are not defined in the program count
 as ambiguous names too

---
 src/main.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index b1ff8a1..2d42c2c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -503,11 +503,6 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
             has_stack_usage_info = true;
         }
 
-        let demangled = rustc_demangle::demangle(canonical_name).to_string();
-        if let Some(dehashed) = dehash(&demangled) {
-            *ambiguous.entry(dehashed.to_string()).or_insert(0) += 1;
-        }
-
         let idx = g.add_node(Node(canonical_name, stack, false));
         indices.insert(canonical_name.into(), idx);
 
@@ -1081,6 +1076,15 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         }
     }
 
+    // find out which names would be ambiguous without the hash; symbols that are not defined in the
+    // ELF also count
+    for node in g.node_weights() {
+        let demangled = rustc_demangle::demangle(&node.name).to_string();
+        if let Some(dehashed) = dehash(&demangled) {
+            *ambiguous.entry(dehashed.to_string()).or_insert(0) += 1;
+        }
+    }
+
     // filter the call graph
     if let Some(start) = &args.start {
         let start: &str = start;
-- 
2.43.0


From ac4581535744bc419ec5f2a4d511476c82a5447a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:42 +0000
Subject: [PATCH 06/18] fix: find the start by its path only, not by paths it
 is a prefix of, and by its aliases

---
 src/main.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 2d42c2c..7489f93 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1088,15 +1088,13 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     // filter the call graph
     if let Some(start) = &args.start {
         let start: &str = start;
-        let start = indices.get(start).cloned().or_else(|| {
-            let start_ = start.to_owned() + "::h";
+        // use canonical name
+        let start_ = aliases.get(start).copied().unwrap_or(start);
+        let start = indices.get(start_).cloned().or_else(|| {
             let hits = indices
                 .keys()
                 .filter_map(|key| {
-                    if rustc_demangle::demangle(key)
-                        .to_string()
-                        .starts_with(&start_)
-                    {
+                    if dehash(&rustc_demangle::demangle(key).to_string()) == Some(start) {
                         Some(key)
                     } else {
                         None
-- 
2.43.0


From 2c58507089ff929e059463f85b46281fe806ede7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:56 +0000
Subject: [PATCH 07/18] fix: functions declared with the formatter signature
 are callees of formatter calls too

---
 src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.rs b/src/main.rs
index 7489f93..74fc649 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1042,6 +1042,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                         sig.inputs[0] = Type::Alias("fmt::Void");
                     }
 
+                    fmts.extend(&indirect.callees);
                     &fmts
                 }
 
-- 
2.43.0


From 39e3652e59276ef946fdb7b189d5cec55ad091d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:26 +0000
Subject: [PATCH 08/18] fix: analyse the program for the target given by
 --target

Cargo gives the flag precedence over the target configured for the project
---
 src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 74fc649..de62e2b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -140,7 +140,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     let cwd = env::current_dir()?;
     let project = Project::query(cwd)?;
     let target_flag = args.target.as_deref();
-    let target = project.target().or(target_flag).unwrap_or(&host);
+    let target = target_flag.or(project.target()).unwrap_or(&host);
 
     let mut is_no_std = false;
     {
@@ -350,7 +350,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         }
     }
 
-    let target = project.target().or(target_flag).unwrap_or(&host);
+    let target = target_flag.or(project.target()).unwrap_or(&host);
 
     // we know how to analyze the machine code in the ELF file for these targets thus we have more
     // information and need less LLVM-IR hacks
-- 
2.43.0


From abb02c3ccf2852ef7f383c7ba2658bc0cc2f4721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:19 +0000
Subject: [PATCH 09/18] fix: take every 16-bit encoding for a 16-bit
 instruction

BKPT had the wrong opcode, and every other 16-bit encoding that is not listed
swallowed the halfword that follows it.
---
 src/thumb.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index 573cc4b..57eb4bc 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -168,7 +168,7 @@ pub fn analyze(
         } else if matches(first, "0b010000_1110_xxx_xxx") {
             // A7.7.16  BIC (register) - T1
             continue;
-        } else if matches(first, "0b1010_1110_xxxxxxxx") {
+        } else if matches(first, "0b1011_1110_xxxxxxxx") {
             // A7.7.17  BKPT - T1
             continue;
         } else if matches(first, "0b010001_11_1_xxxx_000") {
@@ -380,6 +380,9 @@ pub fn analyze(
         } else if matches(first, "0b1011_1111_0001_0000") {
             // A7.7.260      YIELD - T1
             continue;
+        } else if first[1] >> 3 < 0b11101 {
+            // some other 16-bit instruction
+            continue;
         } else {
             let second = halfwords.next().unwrap_or_else(|| bug!(first)).0;
 
-- 
2.43.0


From a53f8efe6f4304cafb798af11714e07437901951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:19 +0000
Subject: [PATCH 10/18] fix: J2 comes before J1 in the displacement of a
 conditional B.W

---
 src/thumb.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index 57eb4bc..daad561 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -471,8 +471,8 @@ pub fn analyze(
                 let j2 = second[1] & (1 << 3) != 0;
                 let imm11 = (i32::from(second[1] & 0b111) << 8) | second[0] as i32;
                 let imm21 = (if s { 1 } else { 0 } << 20)
-                    | (if j1 { 1 } else { 0 } << 19)
-                    | (if j2 { 1 } else { 0 } << 18)
+                    | (if j2 { 1 } else { 0 } << 19)
+                    | (if j1 { 1 } else { 0 } << 18)
                     | (imm6 << 12)
                     | (imm11 << 1);
 
-- 
2.43.0


From 75ec3f0ad02ecf124f4659c60e6d4926326c2e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:19 +0000
Subject: [PATCH 11/18] fix: STMDB without writeback does not change the stack
 pointer

---
 src/thumb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index daad561..dddc237 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -389,7 +389,7 @@ pub fn analyze(
             const SP: u8 = 0b1101;
 
             if v7
-                && matches(first, "0b11101_00_100_x_0_xxxx")
+                && matches(first, "0b11101_00_100_1_0_xxxx")
                 && matches(second, "0b0_x_0_xxxxxxxxxxxxx")
             {
                 // A7.7.157      STMDB, STMFD
-- 
2.43.0


From 6ceac7e42c1d598147c3c65ee5ed0923995278bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:20 +0000
Subject: [PATCH 12/18] fix: ThumbExpandImm repeats the byte in both halfwords

---
 src/thumb.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index dddc237..c56f546 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -603,7 +603,10 @@ fn thumb_expand_imm(imm12: u16) -> u32 {
         match (imm12 >> 8) & 0b0011 {
             0b00 => u32::from(imm12 & 0b0000_1111_1111),
 
-            0b01 => u32::from(imm12 & 0b0000_1111_1111) << 8,
+            0b01 => {
+                let imm8 = u32::from(imm12 & 0b0000_1111_1111);
+                (imm8 << 16) | imm8
+            }
 
             0b10 => {
                 let imm8 = u32::from(imm12 & 0b0000_1111_1111);
-- 
2.43.0


From 550b0a8b72ccb08b6c3a74b17ac1726eb5307241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:20 +0000
Subject: [PATCH 13/18] fix: recognise SUBW SP, SP, #imm12

---
 src/thumb.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/thumb.rs b/src/thumb.rs
index c56f546..997dca7 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -427,6 +427,22 @@ pub fn analyze(
                         *stack += u64::from(imm32);
                     }
                 }
+            } else if v7
+                && matches(first, "0b11110_x_1_0101_0_1101")
+                && matches(second, "0b0_xxx_1101_xxxxxxxx")
+            {
+                // A7.7.173      SUB (SP minus immediate) - T3
+                // e.g. 'f6ad 0d04       subw    sp, sp, #2052   ; 0x804'
+                modifies_sp = true;
+
+                let imm8 = second[0];
+                let imm3 = (second[1] >> 4) & 0b0111;
+                let i = (first[1] >> 2) & 1;
+                let imm12 = (u16::from(i) << 11) | (u16::from(imm3) << 8) | u16::from(imm8);
+
+                if let Some(stack) = stack.as_mut() {
+                    *stack += u64::from(imm12);
+                }
             } else if v7
                 && matches(first, "0b1110_110_1_0_x_1_0_1101")
                 && matches(second, "0bxxxx_1011_xxxxxxxx")
-- 
2.43.0


From c99acdaae2b2af3ba83917b41c1616969a47ea84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:20 +0000
Subject: [PATCH 14/18] fix: give up the stack usage analysis at CBZ and CBNZ

---
 src/thumb.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index 997dca7..dfd4c5c 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -184,7 +184,8 @@ pub fn analyze(
             }
         } else if v7 && matches(first, "0b1011_x_0_x_1_xxxxx_xxx") {
             // A7.7.21  CBNZ, CBZ - T1
-            continue;
+            // this is an `if`; give up the stack usage analysis
+            stack = None;
         } else if matches(first, "0b010000_1011_xxx_xxx") {
             // A7.7.26  CMN (register) - T1
             continue;
-- 
2.43.0


From 914760a1a5c08e6e7d51671998310a85d13e9123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:38 +0000
Subject: [PATCH 15/18] fix: don't discard the calls made with invoke and
 callbr

'other' accepts any line that doesn't contain the word 'call'. An invoke (or
a callbr) that is none of the supported forms was therefore silently
discarded, and its callee was missing from the graph
---
 src/ir/define.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ir/define.rs b/src/ir/define.rs
index c943530..851b564 100644
--- a/src/ir/define.rs
+++ b/src/ir/define.rs
@@ -266,7 +266,7 @@ fn other(i: &str) -> IResult<&str, Stmt> {
     let i = separated_list1(
         space1,
         map_res(is_not(" \t\r\n"), |i| {
-            if i == "call" {
+            if i == "call" || i == "invoke" || i == "callbr" {
                 Err(())
             } else {
                 Ok(())
-- 
2.43.0


From 6281ddae21933e6ade879d5cfd45d04bc2528338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:48 +0000
Subject: [PATCH 16/18] fix: use the function type written in an indirect call

A call to a variadic function through a pointer is written with the whole
type of the function ('call i32 (ptr, ...) %3(...)'). That type was taken for
the type of the result, so no function could ever match the signature
---
 src/ir/define.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ir/define.rs b/src/ir/define.rs
index 851b564..27519b3 100644
--- a/src/ir/define.rs
+++ b/src/ir/define.rs
@@ -253,13 +253,16 @@ fn indirect_call(i: &str) -> IResult<&str, Stmt> {
     // TODO we likely want to parse the metadata (`!dbg !0`) that comes after the argument list
     // NOTE shortcut
     let i = not_line_ending(i)?.0;
-    Ok((
-        i,
-        Stmt::IndirectCall(FnSig {
+    let sig = match output {
+        // the type of the function, instead of the type of its result, was written down; this is
+        // how calls to variadic functions look like
+        Some(Type::Fn(sig)) => sig,
+        output => FnSig {
             inputs,
             output: output.map(Box::new),
-        }),
-    ))
+        },
+    };
+    Ok((i, Stmt::IndirectCall(sig)))
 }
 
 fn other(i: &str) -> IResult<&str, Stmt> {
-- 
2.43.0


From 138aa340c0be228104d9ad72a824641bc80ef458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:45 +0000
Subject: [PATCH 17/18] fix: read the types of functions that return pointers
 to functions without a result

'void ()* (i32)' is a function that returns a function pointer. The parameter
list of the outer function was left unread when the inner one returns void
---
 src/ir/ty.rs | 98 +++++++++++++++++++++++-----------------------------
 1 file changed, 43 insertions(+), 55 deletions(-)

diff --git a/src/ir/ty.rs b/src/ir/ty.rs
index 69d6c6f..b2047c2 100644
--- a/src/ir/ty.rs
+++ b/src/ir/ty.rs
@@ -246,30 +246,18 @@ fn struct_(i: &str) -> IResult<&str, Type> {
 pub fn type_(i: &str) -> IResult<&str, Type> {
     let (i, void) = opt(tag("void"))(i)?;
 
-    if void.is_some() {
+    let (mut i, mut ty) = if void.is_some() {
         // this must be a function
         let i = space1(i)?.0;
-        let (mut i, inputs) = fn_inputs(i)?;
-        let mut ty = Type::Fn(FnSig {
+        let (i, inputs) = fn_inputs(i)?;
+        let ty = Type::Fn(FnSig {
             inputs,
             output: None,
         });
 
-        // is this a function pointer?
-        loop {
-            let (i_, star) = opt(char('*'))(i)?;
-
-            if star.is_none() {
-                break;
-            } else {
-                i = i_;
-                ty = Type::Pointer(Box::new(ty));
-            }
-        }
-
-        Ok((i, ty))
+        (i, ty)
     } else {
-        let (mut i, mut ty) = alt((
+        alt((
             array,
             packed_struct,
             struct_,
@@ -280,52 +268,52 @@ pub fn type_(i: &str) -> IResult<&str, Type> {
             integer,
             varargs,
             mvt_vector,
-        ))(i)?;
+        ))(i)?
+    };
 
-        // is this a pointer?
-        loop {
-            let (i_, star) = opt(char('*'))(i)?;
+    // is this a pointer?
+    loop {
+        let (i_, star) = opt(char('*'))(i)?;
 
-            if star.is_none() {
-                break;
-            } else {
-                i = i_;
-                ty = Type::Pointer(Box::new(ty));
-            }
+        if star.is_none() {
+            break;
+        } else {
+            i = i_;
+            ty = Type::Pointer(Box::new(ty));
         }
+    }
 
-        // is this a function?
-        loop {
-            let (i_, inputs) = opt(|i| {
-                let i = space1(i)?.0;
-                fn_inputs(i)
-            })(i)?;
-
-            if let Some(inputs) = inputs {
-                i = i_;
-                ty = Type::Fn(FnSig {
-                    inputs,
-                    output: Some(Box::new(ty)),
-                });
-
-                // is this a function pointer?
-                loop {
-                    let (i_, star) = opt(char('*'))(i)?;
-
-                    if star.is_none() {
-                        break;
-                    } else {
-                        i = i_;
-                        ty = Type::Pointer(Box::new(ty));
-                    }
+    // is this a function?
+    loop {
+        let (i_, inputs) = opt(|i| {
+            let i = space1(i)?.0;
+            fn_inputs(i)
+        })(i)?;
+
+        if let Some(inputs) = inputs {
+            i = i_;
+            ty = Type::Fn(FnSig {
+                inputs,
+                output: Some(Box::new(ty)),
+            });
+
+            // is this a function pointer?
+            loop {
+                let (i_, star) = opt(char('*'))(i)?;
+
+                if star.is_none() {
+                    break;
+                } else {
+                    i = i_;
+                    ty = Type::Pointer(Box::new(ty));
                 }
-            } else {
-                break;
             }
+        } else {
+            break;
         }
-
-        Ok((i, ty))
     }
+
+    Ok((i, ty))
 }
 
 fn fn_inputs(i: &str) -> IResult<&str, Vec<Type>> {
-- 
2.43.0


From 593eec83333ecad290c7defcd46536982494e284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:37 +0000
Subject: [PATCH 18/18] fix: don't claim to know the stack usage of functions
 of unknown size

---
 src/main.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index de62e2b..978834b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -826,6 +826,15 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                     }
                 }
 
+                if size == 0 {
+                    // we don't know where this function ends so we can't tell what it does
+                    if g[indices[canonical_name]].local == Local::Unknown {
+                        warn!("no stack usage information for `{}`", canonical_name);
+                    }
+
+                    continue;
+                }
+
                 let start = (address - stext) as usize;
                 let end = start + size as usize;
                 let (bls, bs, indirect, modifies_sp, our_stack) = thumb::analyze(
-- 
2.43.0

