From a769524b37f723df558af193be29da820bbe9123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:21 +0000
Subject: [PATCH 01/21] fix: make proof_of_storage compile (zk_vde legendre had
 a branch without a value)

---
 proof_of_storage/src/zk_vde/sloth.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proof_of_storage/src/zk_vde/sloth.rs b/proof_of_storage/src/zk_vde/sloth.rs
index 98621b2..0f7d706 100644
--- a/proof_of_storage/src/zk_vde/sloth.rs
+++ b/proof_of_storage/src/zk_vde/sloth.rs
@@ -9,6 +9,7 @@ pub fn legendre<F: Field>(mut x: F, p: F) -> F {
         return F::one();
     }
     else {
+        unimplemented!("legendre over a prime field is not implemented yet")
     }
 }
 
-- 
2.43.0


From bbba749a490c668a7e232b5219bbef33b0b717e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:21 +0000
Subject: [PATCH 02/21] fix: keep 0 a fixed point of sloth so that sloth_inv
 inverts it

---
 proof_of_storage/src/vde/rug_sloth.rs | 10 ++++++++++
 proof_of_storage/src/vde/sloth.rs     | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/proof_of_storage/src/vde/rug_sloth.rs b/proof_of_storage/src/vde/rug_sloth.rs
index 6e3525e..d0d653a 100644
--- a/proof_of_storage/src/vde/rug_sloth.rs
+++ b/proof_of_storage/src/vde/rug_sloth.rs
@@ -79,6 +79,11 @@ pub fn single_sloth(x: &Integer, p: &Integer) -> Integer {
         }
     }
 
+    // 0 没有可以交换的相邻元素，保持不变
+    if y == Integer::from_str("0").unwrap() {
+        return y;
+    }
+
     if y.clone() % 2 == Integer::from_str("1").unwrap() {
         return (y + Integer::from_str("1").unwrap()) % p;
     }
@@ -96,6 +101,11 @@ pub fn sloth(y: &Integer, p: &Integer, t: usize) -> Integer {
 }
 
 pub fn single_sloth_inv(y: &Integer, p: &Integer) -> Integer {
+    // 0 是不动点，与 single_sloth 对应
+    if y.clone() == Integer::from_str("0").unwrap() {
+        return y.clone();
+    }
+
     let x;
     if y.clone() % 2 == Integer::from_str("1").unwrap() {
         x = (y + Integer::from_str("1").unwrap()) % p;
diff --git a/proof_of_storage/src/vde/sloth.rs b/proof_of_storage/src/vde/sloth.rs
index 9099e95..ef255eb 100644
--- a/proof_of_storage/src/vde/sloth.rs
+++ b/proof_of_storage/src/vde/sloth.rs
@@ -71,6 +71,11 @@ pub fn single_sloth(x: &BigInt, p: &BigInt) -> BigInt {
         }
     }
 
+    // 0 没有可以交换的相邻元素，保持不变
+    if y == 0.to_bigint().unwrap() {
+        return y;
+    }
+
     if y.clone() % 2 == 1.to_bigint().unwrap() {
         return (y + 1.to_bigint().unwrap()) % p;
     }
@@ -88,6 +93,11 @@ pub fn sloth(y: &BigInt, p: &BigInt, t: usize) -> BigInt {
 }
 
 pub fn single_sloth_inv(y: &BigInt, p: &BigInt) -> BigInt {
+    // 0 是不动点，与 single_sloth 对应
+    if y.clone() == 0.to_bigint().unwrap() {
+        return y.clone();
+    }
+
     let x;
     if y.clone() % 2 == 1.to_bigint().unwrap() {
         x = (y + 1.to_bigint().unwrap()) % p;
-- 
2.43.0


From b1c762025a817647b543ddb94041a2a0c83fe6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:21 +0000
Subject: [PATCH 03/21] fix: unseal reads the blocks the long dependency names,
 not blocks 0..count

---
 proof_of_storage/src/proof_of_storage/prover.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proof_of_storage/src/proof_of_storage/prover.rs b/proof_of_storage/src/proof_of_storage/prover.rs
index d0f14af..628d3f5 100644
--- a/proof_of_storage/src/proof_of_storage/prover.rs
+++ b/proof_of_storage/src/proof_of_storage/prover.rs
@@ -378,7 +378,7 @@ pub fn unseal(params: &PosPara, path: &str, vde_key: &Integer, iv: &Vec<u8>)
                 }
             }
             else {
-                for i in 0..idxs_l[idx2].len() {
+                for &i in &idxs_l[idx2] {
                     let start = Instant::now();
                     let buf = read_file(&mut file, i * params.block_pl, params.block_pl);
                     file_cost += start.elapsed().as_secs_f32();
-- 
2.43.0


From 822c0f486fa5dcd3fc156c4a320818b255a0d273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:21 +0000
Subject: [PATCH 04/21] fix: size the short dependency table by the units of a
 block, not by the block count

---
 proof_of_storage/src/proof_of_storage/prover.rs   | 4 ++--
 proof_of_storage/src/proof_of_storage/verifier.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/proof_of_storage/src/proof_of_storage/prover.rs b/proof_of_storage/src/proof_of_storage/prover.rs
index 628d3f5..94ae344 100644
--- a/proof_of_storage/src/proof_of_storage/prover.rs
+++ b/proof_of_storage/src/proof_of_storage/prover.rs
@@ -76,7 +76,7 @@ pub fn seal(params: &PosPara, path: &str, vde_key: &Integer, iv: &Vec<u8>) -> (V
     };
     let idxs_s = {
         if params.mode_s != 0 {
-            create_short_depend(block_cnt, params.cnt_s, params.mode_s)
+            create_short_depend(params.block_l / params.unit_l, params.cnt_s, params.mode_s)
         }
         else {
             vec![]
@@ -293,7 +293,7 @@ pub fn unseal(params: &PosPara, path: &str, vde_key: &Integer, iv: &Vec<u8>)
     };
     let idxs_s = {
         if params.mode_s != 0 {
-            create_short_depend(block_cnt, params.cnt_s, params.mode_s)
+            create_short_depend(params.block_l / params.unit_l, params.cnt_s, params.mode_s)
         }
         else {
             vec![]
diff --git a/proof_of_storage/src/proof_of_storage/verifier.rs b/proof_of_storage/src/proof_of_storage/verifier.rs
index ccfa522..648e06a 100644
--- a/proof_of_storage/src/proof_of_storage/verifier.rs
+++ b/proof_of_storage/src/proof_of_storage/verifier.rs
@@ -210,7 +210,7 @@ pub fn batch_unseal_prepare(sealed_path: &str, idx_begin: usize, idx_end: usize,
 pub fn batch_unseal_and_verify(params: &PosPara, origin_path: &str, blocks_idx: &Vec<usize>, blocks: &Vec<Vec<Vec<u8>>>, before_block_ids: &Vec<Vec<u8>>, depend_blocks: &Vec<Vec<Vec<Vec<u8>>>>, vde_key: &Integer, iv: &Vec<u8>) {
     let idxs_s = {
         if params.mode_s != 0 {
-            create_short_depend(params.data_l / params.block_l, params.cnt_s, params.mode_s)
+            create_short_depend(params.block_l / params.unit_l, params.cnt_s, params.mode_s)
         }
         else {
             vec![]
@@ -379,7 +379,7 @@ pub fn batch_unseal(params: &PosPara, blocks_idx: &Vec<usize>, blocks: &mut Vec<
 pub fn batch_unseal_parallel(params: &PosPara, blocks_idx: &Vec<usize>, blocks: &Vec<Vec<Vec<u8>>>, before_block_ids: &Vec<Vec<u8>>, depend_blocks: &Vec<Vec<Vec<Vec<u8>>>>, vde_key: &Integer, iv: &Vec<u8>, parallel_num: usize) -> Vec<Vec<Vec<u8>>> {
     let idxs_s = {
         if params.mode_s != 0 {
-            create_short_depend(params.data_l / params.block_l, params.cnt_s, params.mode_s)
+            create_short_depend(params.block_l / params.unit_l, params.cnt_s, params.mode_s)
         }
         else {
             vec![]
-- 
2.43.0


From 8d570cd9a9b75aa9c7475a1da28cedfb15f64ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:49 +0000
Subject: [PATCH 05/21] fix: short_mode_2 underflowed on every index, follow
 its documented rule

---
 .../src/proof_of_storage/depend.rs            | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/proof_of_storage/src/proof_of_storage/depend.rs b/proof_of_storage/src/proof_of_storage/depend.rs
index 7b5c0b4..db9bd1b 100644
--- a/proof_of_storage/src/proof_of_storage/depend.rs
+++ b/proof_of_storage/src/proof_of_storage/depend.rs
@@ -197,22 +197,24 @@ pub fn short_mode_2(num: usize, index: usize, count: usize) -> Vec<usize> {
     let mut flag = false;
     for i in 0..count {
         let idx;
-        let dis1 = 1 - usize::pow(2, i.try_into().unwrap());
-        let dis2 = 1 + usize::pow(2, i.try_into().unwrap());
+        let pow = match usize::checked_pow(2, i.try_into().unwrap()) {
+            Some(pow) => pow,
+            None => break,
+        };
         if flag == true {
-            idx = index - dis1;
+            // 依赖在右侧：+(2^i - 1)
+            idx = index.checked_add(pow - 1);
         }
         else {
-            idx = index - dis2;
+            // 依赖在左侧：-(2^i + 1)
+            idx = index.checked_sub(pow + 1);
         }
         flag = !flag;
 
-        if idx >= num {
-            break;
-        }
-
-        if idx < num {
-            short_index.push(idx);
+        // 超出寻址范围时，停止循环
+        match idx {
+            Some(idx) if idx < num => short_index.push(idx),
+            _ => break,
         }
     }
     short_index
-- 
2.43.0


From 5b4609cf63347b3494b6ca2a315888b903851962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:49 +0000
Subject: [PATCH 06/21] fix: long_mode_2 and long_mode_3 overflowed 2^i for
 large dependency counts

---
 proof_of_storage/src/proof_of_storage/depend.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/proof_of_storage/src/proof_of_storage/depend.rs b/proof_of_storage/src/proof_of_storage/depend.rs
index db9bd1b..39036cf 100644
--- a/proof_of_storage/src/proof_of_storage/depend.rs
+++ b/proof_of_storage/src/proof_of_storage/depend.rs
@@ -25,9 +25,11 @@ pub fn long_mode_2(index: usize, count: usize) -> Vec<usize> {
         // dis = 1 + 2^i
         // dis = 2, 3, 5, 9..
         let dis = 1 + usize::pow(2, i.try_into().unwrap());
-        if index >= dis {
-            long_index.push(index - dis);
+        // dis 递增，超出寻址范围后停止，避免 2^i 溢出
+        if index < dis {
+            break;
         }
+        long_index.push(index - dis);
     }
     long_index
 }
@@ -40,9 +42,11 @@ pub fn long_mode_3(index: usize) -> Vec<usize> {
         // dis = 1 + 2^i
         // dis = 2, 3, 5, 9..
         let dis = 1 + usize::pow(2, i.try_into().unwrap());
-        if index >= dis {
-            long_index.push(index - dis);
+        // dis 递增，超出寻址范围后停止，避免 2^i 溢出
+        if index < dis {
+            break;
         }
+        long_index.push(index - dis);
     }
     long_index
 }
-- 
2.43.0


From 46cd77f64189d17c5fe9d7fc7e88d59753b4d0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:49 +0000
Subject: [PATCH 07/21] fix: random dependencies read past the 16 byte digest
 with 3 byte indices

---
 proof_of_storage/src/proof_of_storage/depend.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/proof_of_storage/src/proof_of_storage/depend.rs b/proof_of_storage/src/proof_of_storage/depend.rs
index 39036cf..bd5ffcf 100644
--- a/proof_of_storage/src/proof_of_storage/depend.rs
+++ b/proof_of_storage/src/proof_of_storage/depend.rs
@@ -76,7 +76,7 @@ pub fn long_mode_random(num: usize, data: &Vec<u8>, index: usize, count: usize)
     let mut blake3_res = hasher.finalize();
 
     let mut data_hash: [u8; 16] = blake3_res.as_bytes().as_slice()[..16].try_into().unwrap();
-    for i in (0..16).step_by(step) {
+    for i in (0..=16 - step).step_by(step) {
         if c < count {
             let mut data_idx = 0;
             for j in 0..step {
@@ -98,7 +98,7 @@ pub fn long_mode_random(num: usize, data: &Vec<u8>, index: usize, count: usize)
 
         data_hash = blake3_res.as_bytes().as_slice()[..16].try_into().unwrap();
 
-        for i in (0..16).step_by(step) {
+        for i in (0..=16 - step).step_by(step) {
             if c < count {
                 let mut data_idx = 0;
                 for j in 0..step {
@@ -245,7 +245,7 @@ pub fn short_depend_random(num: usize, data: &Vec<u8>, index: usize, count: usiz
     let mut blake3_res = hasher.finalize();
 
     let mut data_hash: [u8; 16] = blake3_res.as_bytes().as_slice()[..16].try_into().unwrap();
-    for i in (0..16).step_by(step) {
+    for i in (0..=16 - step).step_by(step) {
         if c < count {
             let mut data_idx = 0;
             for j in 0..step {
@@ -269,7 +269,7 @@ pub fn short_depend_random(num: usize, data: &Vec<u8>, index: usize, count: usiz
 
         data_hash = blake3_res.as_bytes().as_slice()[..16].try_into().unwrap();
 
-        for i in (0..16).step_by(step) {
+        for i in (0..=16 - step).step_by(step) {
             if c < count {
                 let mut data_idx = 0;
                 for j in 0..step {
-- 
2.43.0


From 57e6833249f0e52c8427e06a25b324fd249a6b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:49 +0000
Subject: [PATCH 08/21] fix: commit to the leaf at its own offset, the first
 leaf was never covered

---
 proof_of_storage/src/proof_of_storage/merkle_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proof_of_storage/src/proof_of_storage/merkle_tree.rs b/proof_of_storage/src/proof_of_storage/merkle_tree.rs
index c2235d7..d426126 100644
--- a/proof_of_storage/src/proof_of_storage/merkle_tree.rs
+++ b/proof_of_storage/src/proof_of_storage/merkle_tree.rs
@@ -14,7 +14,7 @@ pub fn generate_merkle_tree_from_file(path: &str, data_len: usize, leaf_len: usi
 
     let mut leaf_values = vec![];
     for i in (0..data_len).step_by(leaf_len) {
-        let buf = read_file(&mut file, i + leaf_len, leaf_len);
+        let buf = read_file(&mut file, i, leaf_len);
         leaf_values.push(buf);
     }
     let leaves: Vec< [u8; 32]> = leaf_values.iter().map(|x| Sha256::hash(x)).collect();
-- 
2.43.0


From f782e2efba153365387e9e7cb91ee31ef77bb022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:49 +0000
Subject: [PATCH 09/21] fix: read_file took a short read for the whole range
 and zero filled the rest

---
 proof_of_storage/src/proof_of_storage/common.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/proof_of_storage/src/proof_of_storage/common.rs b/proof_of_storage/src/proof_of_storage/common.rs
index 5849075..d7e63a6 100644
--- a/proof_of_storage/src/proof_of_storage/common.rs
+++ b/proof_of_storage/src/proof_of_storage/common.rs
@@ -1,5 +1,5 @@
 use std::fs::File;
-use std::io::{Seek, Read, SeekFrom};
+use std::io::{ErrorKind, Seek, Read, SeekFrom};
 use md5::{Md5, Digest};
 use rug::Integer;
 use rug::integer::Order;
@@ -79,7 +79,16 @@ pub fn read_file(file: &mut File, begin_idx: usize, len: usize) -> Vec<u8> {
     //! 从 file 的 begin_idx 字节开始，读取 len 字节
     let mut buf = vec![0; len];
     file.seek(SeekFrom::Start(begin_idx.try_into().unwrap())).unwrap();
-    file.read(&mut buf).unwrap();
+    // 一次 read 可能只返回部分数据，循环读取直到读满或到达文件末尾
+    let mut filled = 0;
+    while filled < len {
+        match file.read(&mut buf[filled..]) {
+            Ok(0) => break,
+            Ok(n) => filled += n,
+            Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+            Err(e) => panic!("read file failed: {:?}", e),
+        }
+    }
     buf
 }
 
-- 
2.43.0


From faf10308b0d07a4caefb42415524c1a16e4afd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:45 +0000
Subject: [PATCH 10/21] fix: verify accepted every well formed proof, it
 ignored the pairing check's answer

---
 proof_of_space/src/proof_of_space/verifier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proof_of_space/src/proof_of_space/verifier.rs b/proof_of_space/src/proof_of_space/verifier.rs
index 7313605..2e1023f 100644
--- a/proof_of_space/src/proof_of_space/verifier.rs
+++ b/proof_of_space/src/proof_of_space/verifier.rs
@@ -40,5 +40,5 @@ pub fn verify(pvk: PreparedVerifyingKey<Bls12_381>, proof: Proof<Bls12_381>, key
 
     verify_input.push(x_hash);
 
-    assert!(verify_proof(&pvk, &proof, &verify_input).is_ok());
+    assert!(verify_proof(&pvk, &proof, &verify_input).unwrap());
 }
-- 
2.43.0


From f9902ba3d2c243dbb91e9dd7ed555f7ef816d271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:45 +0000
Subject: [PATCH 11/21] fix: verify let one challenge be answered again and
 again

---
 proof_of_space/src/proof_of_space/verifier.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proof_of_space/src/proof_of_space/verifier.rs b/proof_of_space/src/proof_of_space/verifier.rs
index 2e1023f..b49bcf8 100644
--- a/proof_of_space/src/proof_of_space/verifier.rs
+++ b/proof_of_space/src/proof_of_space/verifier.rs
@@ -29,6 +29,9 @@ pub fn create_challenges(n: usize, end: usize) -> Vec<usize> {
 
 pub fn verify(pvk: PreparedVerifyingKey<Bls12_381>, proof: Proof<Bls12_381>, key: Fr, m: Fr, challenges: &Vec<usize>, idx_response: &Vec<usize>, x_hash: Fr) {
     //! 验证零知识证明
+    // 每个挑战只能应答一次，应答的挑战编号必须严格递增
+    assert!(idx_response.windows(2).all(|w| w[0] < w[1]));
+
     let mut verify_input = vec![];
     verify_input.push(key);
     verify_input.push(m);
-- 
2.43.0


From 0343b692980d0517e567c3be90f9c7817b08eaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:45 +0000
Subject: [PATCH 12/21] fix: prepare_space dropped the last partial byte of the
 table

---
 proof_of_space/src/proof_of_space/prover.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proof_of_space/src/proof_of_space/prover.rs b/proof_of_space/src/proof_of_space/prover.rs
index e9105d9..fe88be0 100644
--- a/proof_of_space/src/proof_of_space/prover.rs
+++ b/proof_of_space/src/proof_of_space/prover.rs
@@ -35,7 +35,8 @@ pub fn prepare_space(path: &str, n: usize) -> std::io::Result<()> {
     let count = base.pow(n.try_into().unwrap());
 
     let buf = [0u8; 1];
-    for _ in 0..(n + 1) * count / 8 {
+    // 不足一个字节的部分也需要占用一个字节
+    for _ in 0..((n + 1) * count + 7) / 8 {
         file.write_all(&buf).unwrap();
     }
     Ok(())
-- 
2.43.0


From 657dd7ec49206ea56a9c78cb02809fb10a821091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:46 +0000
Subject: [PATCH 13/21] fix: bits_to_usize overflowed on a full width vector

---
 proof_of_space/src/proof_of_space/convert.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/proof_of_space/src/proof_of_space/convert.rs b/proof_of_space/src/proof_of_space/convert.rs
index d52ea3d..377fe61 100644
--- a/proof_of_space/src/proof_of_space/convert.rs
+++ b/proof_of_space/src/proof_of_space/convert.rs
@@ -56,17 +56,10 @@ pub fn bits_to_bytes(x: &Vec<bool>) -> Vec<u8> {
 pub fn bits_to_usize(x: &Vec<bool>) -> usize {
     //! 比特转整型
     let mut res = 0;
-    let mut base = 1;
     for i in 0..x.len() {
-        res += base * { 
-            if x[i] == false {
-                0
-            }
-            else {
-                1
-            }
-        };
-        base *= 2;
+        if x[i] == true {
+            res |= 1 << i;
+        }
     }
     res
 }
-- 
2.43.0


From fc8f007cd77fde5e4d239650faaeed2d0db70d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:46 +0000
Subject: [PATCH 14/21] fix: hash and pow circuits left the chained key and the
 initial product free

---
 proof_of_space/src/circuit/mimc5_hash_circuit.rs | 2 +-
 proof_of_space/src/circuit/mimc7_hash_circuit.rs | 2 +-
 proof_of_space/src/circuit/pow_circuit.rs        | 6 ++++++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/proof_of_space/src/circuit/mimc5_hash_circuit.rs b/proof_of_space/src/circuit/mimc5_hash_circuit.rs
index 7070c58..f67404b 100644
--- a/proof_of_space/src/circuit/mimc5_hash_circuit.rs
+++ b/proof_of_space/src/circuit/mimc5_hash_circuit.rs
@@ -35,7 +35,7 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for MiMC5HashDemo<'a, F> {
             let x_in = cs.new_witness_variable(|| x_in_val.ok_or(SynthesisError::AssignmentMissing))?;
 
             let key_val = res_val;
-            let key = cs.new_witness_variable(|| key_val.ok_or(SynthesisError::AssignmentMissing))?;    
+            let key = res;
             
             let mut h_val = Some(F::zero());
             let mut h = cs.new_witness_variable(|| h_val.ok_or(SynthesisError::AssignmentMissing))?;
diff --git a/proof_of_space/src/circuit/mimc7_hash_circuit.rs b/proof_of_space/src/circuit/mimc7_hash_circuit.rs
index 074fcb5..dfb57d5 100644
--- a/proof_of_space/src/circuit/mimc7_hash_circuit.rs
+++ b/proof_of_space/src/circuit/mimc7_hash_circuit.rs
@@ -35,7 +35,7 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for MiMC7HashDemo<'a, F> {
             let x_in = cs.new_witness_variable(|| x_in_val.ok_or(SynthesisError::AssignmentMissing))?;
 
             let key_val = res_val;
-            let key = cs.new_witness_variable(|| key_val.ok_or(SynthesisError::AssignmentMissing))?;    
+            let key = res;
             
             let mut h_val = Some(F::zero());
             let mut h = cs.new_witness_variable(|| h_val.ok_or(SynthesisError::AssignmentMissing))?;
diff --git a/proof_of_space/src/circuit/pow_circuit.rs b/proof_of_space/src/circuit/pow_circuit.rs
index 6c8cdb5..d5c88ef 100644
--- a/proof_of_space/src/circuit/pow_circuit.rs
+++ b/proof_of_space/src/circuit/pow_circuit.rs
@@ -25,6 +25,12 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for PowDemo<'a, F> {
 
         let mut y_val = Some(F::one());
         let mut y = cs.new_witness_variable(|| y_val.ok_or(SynthesisError::AssignmentMissing))?;
+        // y 的初始值为 1
+        cs.enforce_constraint(
+            lc!() + y,
+            lc!() + Variable::One,
+            lc!() + Variable::One
+        )?;
 
         let mut g_val = self.g;
         let mut g = cs.new_witness_variable(|| g_val.ok_or(SynthesisError::AssignmentMissing))?;
-- 
2.43.0


From 1997257ac13ae0f2e0bb9c4a462f7bdc8ef4dc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:43 +0000
Subject: [PATCH 15/21] fix: equal circuit left its accumulators and the
 expansion of x2 free

---
 proof_of_space/src/circuit/equal_circuit.rs | 56 +++++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/proof_of_space/src/circuit/equal_circuit.rs b/proof_of_space/src/circuit/equal_circuit.rs
index 0233124..72df3e8 100644
--- a/proof_of_space/src/circuit/equal_circuit.rs
+++ b/proof_of_space/src/circuit/equal_circuit.rs
@@ -8,6 +8,43 @@ use ark_relations::{
 
 pub const INPUT_SIZE: usize = 256;
 
+/// Enforce that the little endian bits are the canonical expansion of a field
+/// element, i.e. that the integer they spell is smaller than the modulus.
+pub fn enforce_canonical_bits<F: Field>(cs: &ConstraintSystemRef<F>, bits: &[Variable], bit_vals: &[Option<F>]) -> Result<(), SynthesisError> {
+    let modulus = F::characteristic();
+
+    // run = 1 as long as all bits seen so far (from the top) equal those of modulus - 1
+    let mut run = Variable::One;
+    let mut run_val = Some(F::one());
+    for i in (0..bits.len()).rev() {
+        // modulus is odd, so modulus - 1 only differs from it in bit 0
+        let max_bit = i > 0 && i / 64 < modulus.len() && (modulus[i / 64] >> (i % 64)) & 1 == 1;
+        if max_bit {
+            let new_run_val = match (run_val, bit_vals[i]) {
+                (Some(r), Some(b)) => Some(r * b),
+                _ => None
+            };
+            let new_run = cs.new_witness_variable(|| new_run_val.ok_or(SynthesisError::AssignmentMissing))?;
+            cs.enforce_constraint(
+                lc!() + run,
+                lc!() + bits[i],
+                lc!() + new_run
+            )?;
+            run = new_run;
+            run_val = new_run_val;
+        }
+        else {
+            cs.enforce_constraint(
+                lc!() + run,
+                lc!() + bits[i],
+                lc!()
+            )?;
+        }
+    }
+
+    Ok(())
+}
+
 /// Prove two equations: 
 ///
 /// x2 = x_bit
@@ -34,6 +71,21 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for EqualDemo<'a, F> {
 
         let mut x = cs.new_witness_variable(|| x_val.ok_or(SynthesisError::AssignmentMissing))?;
 
+        // two = 1, x = 0
+        cs.enforce_constraint(
+            lc!() + two,
+            lc!() + Variable::One,
+            lc!() + Variable::One
+        )?;
+        cs.enforce_constraint(
+            lc!() + x,
+            lc!() + Variable::One,
+            lc!()
+        )?;
+
+        let mut bits = vec![];
+        let mut bit_vals = vec![];
+
         for i in 0..INPUT_SIZE {
             let bit = self.x_bits[i];
             let mut bit_val = None;
@@ -52,6 +104,8 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for EqualDemo<'a, F> {
                 lc!() + bit,
                 lc!() + bit
             )?;
+            bits.push(bit);
+            bit_vals.push(bit_val);
             
             // tmp1 = xi * 2^i
             let tmp1_val = bit_val.map(|mut e| {
@@ -116,6 +170,8 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for EqualDemo<'a, F> {
             x_val = tmp2_val;
         }
 
+        enforce_canonical_bits(&cs, &bits, &bit_vals)?;
+
         Ok(())
     }
 }
-- 
2.43.0


From 5bbbbef4798d4cdd61d1924acf436a271dfbd969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:43 +0000
Subject: [PATCH 16/21] fix: pospace circuit did not bind m, the bits of y, the
 hash key and the hashed x

---
 proof_of_space/src/circuit/pospace_circuit.rs | 50 ++++++++++++++++---
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/proof_of_space/src/circuit/pospace_circuit.rs b/proof_of_space/src/circuit/pospace_circuit.rs
index 4c9fc82..16dbdf0 100644
--- a/proof_of_space/src/circuit/pospace_circuit.rs
+++ b/proof_of_space/src/circuit/pospace_circuit.rs
@@ -7,6 +7,7 @@ use ark_relations::{
     r1cs::{ConstraintSynthesizer, ConstraintSystemRef, SynthesisError, Variable},
 };
 
+use super::equal_circuit::enforce_canonical_bits;
 use crate::proof_of_space::pospace::N;
 use crate::mimc::{mimc_df::MIMC5_DF_ROUNDS, mimc_hash::MIMC5_HASH_ROUNDS};
 
@@ -48,11 +49,14 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
         let key = cs.new_input_variable(|| key_val.ok_or(SynthesisError::AssignmentMissing))?;
 
         let m_val = self.m;
-        cs.new_input_variable(|| m_val.ok_or(SynthesisError::AssignmentMissing))?;
+        let m = cs.new_input_variable(|| m_val.ok_or(SynthesisError::AssignmentMissing))?;
     
+        let mut x_vars = vec![];
+
         for i in 0..self.x.len() {
             let x_val = self.x[i];
             let x = cs.new_witness_variable(|| x_val.ok_or(SynthesisError::AssignmentMissing))?;
+            x_vars.push(x);
 
             // xl = key + x
             let mut xl_val = key_val.map(|mut e| {
@@ -68,7 +72,7 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
 
             // xr = m
             let mut xr_val = m_val;
-            let mut xr = cs.new_witness_variable(|| xr_val.ok_or(SynthesisError::AssignmentMissing))?;
+            let mut xr = m;
 
             // 1.证明延迟函数计算的正确性：y = mimc_vde(key + x, m)
             for j in 0..MIMC5_DF_ROUNDS {
@@ -132,6 +136,21 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
                     let mut two_val = Some(Fr::one());
                     let mut two = cs.new_witness_variable(|| two_val.ok_or(SynthesisError::AssignmentMissing))?;
 
+                    // y = 0, two = 1
+                    cs.enforce_constraint(
+                        lc!() + y,
+                        lc!() + Variable::One,
+                        lc!()
+                    )?;
+                    cs.enforce_constraint(
+                        lc!() + two,
+                        lc!() + Variable::One,
+                        lc!() + Variable::One
+                    )?;
+
+                    let mut y_bits = vec![];
+                    let mut y_bit_vals = vec![];
+
                     for k in 0..y_bits_val.len() {
                         // 2.证明y的二进制展开每一位都是0或者1（Y_SIZE位）
                         let bit_val = {
@@ -151,6 +170,8 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
                             lc!() + bit,
                             lc!() + bit
                         )?;
+                        y_bits.push(bit);
+                        y_bit_vals.push(bit_val);
                         
                         // tmp1 = yi * 2^i
                         let tmp_val = bit_val.map(|mut e| {
@@ -183,13 +204,14 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
                         y_val = tmp_val;
                         
                         if k == y_bits_val.len() - 1 {
-                            let yy_val = xl_val;
-                            let yy = cs.new_witness_variable(|| yy_val.ok_or(SynthesisError::AssignmentMissing))?;
                             cs.enforce_constraint(
                                 lc!() + y,
                                 lc!() + Variable::One,
-                                lc!() + yy
+                                lc!() + xl
                             )?;
+
+                            // y_bits 是 y 的唯一展开（小于模数）
+                            enforce_canonical_bits(&cs, &y_bits, &y_bit_vals)?;
                         }
 
                         // 5.证明yn的二进制展开的正确性：yn_bits = yn
@@ -210,6 +232,18 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
                             
                             let mut two_val = Some(Fr::one());
                             let mut two = cs.new_witness_variable(|| two_val.ok_or(SynthesisError::AssignmentMissing))?;
+
+                            // yn = 0, two = 1
+                            cs.enforce_constraint(
+                                lc!() + yn,
+                                lc!() + Variable::One,
+                                lc!()
+                            )?;
+                            cs.enforce_constraint(
+                                lc!() + two,
+                                lc!() + Variable::One,
+                                lc!() + Variable::One
+                            )?;
     
                             for m in 0..yn_bits_val.len() {
 
@@ -285,15 +319,15 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
         }
 
         let mut res_val  = self.key;
-        let mut res = cs.new_witness_variable(|| res_val.ok_or(SynthesisError::AssignmentMissing))?;
+        let mut res = key;
 
         // 7.证明x_hash是x的哈希结果：x_hash = hash(x[0], x[1], .. , x[n-1])
         for i in 0..self.x.len() {
             let x_in_val= self.x[i];
-            let x_in = cs.new_witness_variable(|| x_in_val.ok_or(SynthesisError::AssignmentMissing))?;
+            let x_in = x_vars[i];
 
             let key_val = res_val;
-            let key = cs.new_witness_variable(|| key_val.ok_or(SynthesisError::AssignmentMissing))?;    
+            let key = res;
             
             let mut h_val = Some(Fr::zero());
             let mut h = cs.new_witness_variable(|| h_val.ok_or(SynthesisError::AssignmentMissing))?;
-- 
2.43.0


From a38329cf047904b7e3afb1d23874af7f1d5feaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:43 +0000
Subject: [PATCH 17/21] verif hooks: constructors for the MiMC demo circuits
 (cfg verif_hooks)

---
 proof_of_space/src/circuit/mimc3_df_circuit.rs   | 7 +++++++
 proof_of_space/src/circuit/mimc5_df_circuit.rs   | 7 +++++++
 proof_of_space/src/circuit/mimc5_hash_circuit.rs | 7 +++++++
 proof_of_space/src/circuit/mimc7_hash_circuit.rs | 7 +++++++
 4 files changed, 28 insertions(+)

diff --git a/proof_of_space/src/circuit/mimc3_df_circuit.rs b/proof_of_space/src/circuit/mimc3_df_circuit.rs
index b119055..c263dbd 100644
--- a/proof_of_space/src/circuit/mimc3_df_circuit.rs
+++ b/proof_of_space/src/circuit/mimc3_df_circuit.rs
@@ -19,6 +19,13 @@ pub struct MiMC3DFDemo<'a, F: Field> {
     constants: &'a [F],
 }
 
+#[cfg(verif_hooks)]
+impl<'a, F: Field> MiMC3DFDemo<'a, F> {
+    pub fn verif_new(xl: Option<F>, xr: Option<F>, constants: &'a [F]) -> Self {
+        Self { xl, xr, constants }
+    }
+}
+
 /// Our demo circuit implements this `Circuit` trait which
 /// is used during paramgen and proving in order to
 /// synthesize the constraint system.
diff --git a/proof_of_space/src/circuit/mimc5_df_circuit.rs b/proof_of_space/src/circuit/mimc5_df_circuit.rs
index d48845f..d938357 100644
--- a/proof_of_space/src/circuit/mimc5_df_circuit.rs
+++ b/proof_of_space/src/circuit/mimc5_df_circuit.rs
@@ -19,6 +19,13 @@ pub struct MiMC5DFDemo<'a, F: Field> {
     constants: &'a [F],
 }
 
+#[cfg(verif_hooks)]
+impl<'a, F: Field> MiMC5DFDemo<'a, F> {
+    pub fn verif_new(xl: Option<F>, xr: Option<F>, constants: &'a [F]) -> Self {
+        Self { xl, xr, constants }
+    }
+}
+
 /// Our demo circuit implements this `Circuit` trait which
 /// is used during paramgen and proving in order to
 /// synthesize the constraint system.
diff --git a/proof_of_space/src/circuit/mimc5_hash_circuit.rs b/proof_of_space/src/circuit/mimc5_hash_circuit.rs
index f67404b..9c43cf9 100644
--- a/proof_of_space/src/circuit/mimc5_hash_circuit.rs
+++ b/proof_of_space/src/circuit/mimc5_hash_circuit.rs
@@ -19,6 +19,13 @@ pub struct MiMC5HashDemo<'a, F: Field> {
     constants: &'a [F],
 }
 
+#[cfg(verif_hooks)]
+impl<'a, F: Field> MiMC5HashDemo<'a, F> {
+    pub fn verif_new(x_inputs: &'a [Option<F>], key: Option<F>, constants: &'a [F]) -> Self {
+        Self { x_inputs, key, constants }
+    }
+}
+
 /// Our demo circuit implements this `Circuit` trait which
 /// is used during paramgen and proving in order to
 /// synthesize the constraint system.
diff --git a/proof_of_space/src/circuit/mimc7_hash_circuit.rs b/proof_of_space/src/circuit/mimc7_hash_circuit.rs
index dfb57d5..388babf 100644
--- a/proof_of_space/src/circuit/mimc7_hash_circuit.rs
+++ b/proof_of_space/src/circuit/mimc7_hash_circuit.rs
@@ -19,6 +19,13 @@ pub struct MiMC7HashDemo<'a, F: Field> {
     constants: &'a [F],
 }
 
+#[cfg(verif_hooks)]
+impl<'a, F: Field> MiMC7HashDemo<'a, F> {
+    pub fn verif_new(x_inputs: &'a [Option<F>], key: Option<F>, constants: &'a [F]) -> Self {
+        Self { x_inputs, key, constants }
+    }
+}
+
 /// Our demo circuit implements this `Circuit` trait which
 /// is used during paramgen and proving in order to
 /// synthesize the constraint system.
-- 
2.43.0


From 313073a3aef10f9a0bf71a34e09e9ecfacac24df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:40 +0000
Subject: [PATCH 18/21] fix: usize_to_bits wrote past a zero width vector

---
 proof_of_space/src/proof_of_space/convert.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/proof_of_space/src/proof_of_space/convert.rs b/proof_of_space/src/proof_of_space/convert.rs
index 377fe61..320756a 100644
--- a/proof_of_space/src/proof_of_space/convert.rs
+++ b/proof_of_space/src/proof_of_space/convert.rs
@@ -69,16 +69,12 @@ pub fn usize_to_bits(x: usize, n: usize) -> Vec<bool> {
     let mut x = x.clone();
     let mut res = vec![false; n];
     let mut i = 0;
-    while x > 0 {
+    while x > 0 && i < n {
         if x % 2 == 1 {
             res[i] = true;
         }
         x = x / 2;
         i += 1;
-        
-        if i >= n {
-            break;
-        }
     }
     res
 }
-- 
2.43.0


From 9b90f5a14b4d4fd590b5ef810bce151c8d176cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:37 +0000
Subject: [PATCH 19/21] fix: file_compare reported a truncated or longer file
 as equal

---
 proof_of_storage/src/proof_of_storage/file_compare.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proof_of_storage/src/proof_of_storage/file_compare.py b/proof_of_storage/src/proof_of_storage/file_compare.py
index 5e170dc..5fa919f 100644
--- a/proof_of_storage/src/proof_of_storage/file_compare.py
+++ b/proof_of_storage/src/proof_of_storage/file_compare.py
@@ -16,6 +16,9 @@ with open(FILE_A, "rb") as f_a:
                 if SHOULD_PRINT_POS:
                     print(f'Something was wrong in: {i} / {i:x}!!!')
                 is_right = False
+        if len(data_a) != len(data_b):
+            wrong_count += abs(len(data_a) - len(data_b))
+            is_right = False
 
 if is_right:
     print("That's good! :)")
-- 
2.43.0


From 1a54ead6c4b75e9dc450c8a4492e23fe0a34468a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:53 +0000
Subject: [PATCH 20/21] fix: save_data destroyed the saved parameters when
 interrupted

---
 proof_of_storage/src/proof_of_storage/postorage.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/proof_of_storage/src/proof_of_storage/postorage.rs b/proof_of_storage/src/proof_of_storage/postorage.rs
index 443b0c3..c977bc6 100644
--- a/proof_of_storage/src/proof_of_storage/postorage.rs
+++ b/proof_of_storage/src/proof_of_storage/postorage.rs
@@ -1,4 +1,4 @@
-use std::fs::{OpenOptions, File};
+use std::fs::{OpenOptions, File, rename};
 use std::io::Write;
 use std::path::PathBuf;
 use std::str::FromStr;
@@ -64,14 +64,18 @@ struct PubData {
 pub fn save_data(path: &str, vde_key: &Integer, iv: &Vec<u8>) {
     let target = PubData {vde_key: vde_key.to_string(), iv: iv.to_vec()};
 
+    // 先完整写入临时文件再改名，保存中途崩溃时不会损坏已保存的参数
+    let tmp_path = [path, ".tmp"].concat();
     let mut file = OpenOptions::new()
     .read(true)
     .write(true)
     .create(true) 
-    .open(path)
+    .truncate(true)
+    .open(&tmp_path)
     .unwrap();
 
     serialize_into(&mut file, &target).unwrap();
+    rename(&tmp_path, path).unwrap();
 }
 
 pub fn load_data(path: &str) -> (Integer, Vec<u8>) {
-- 
2.43.0


From 176c65aaae348f2596dedbba7e76d4a62fe5d7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:37 +0000
Subject: [PATCH 21/21] fix: load_data takes no more memory than the parameter
 file has bytes

A damaged length field made it ask for exabytes and abort the process.
---
 proof_of_storage/src/proof_of_storage/postorage.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/proof_of_storage/src/proof_of_storage/postorage.rs b/proof_of_storage/src/proof_of_storage/postorage.rs
index c977bc6..4a7b7ed 100644
--- a/proof_of_storage/src/proof_of_storage/postorage.rs
+++ b/proof_of_storage/src/proof_of_storage/postorage.rs
@@ -1,4 +1,4 @@
-use std::fs::{OpenOptions, File, rename};
+use std::fs::{OpenOptions, File, read, rename};
 use std::io::Write;
 use std::path::PathBuf;
 use std::str::FromStr;
@@ -7,7 +7,7 @@ use rug::Integer;
 use rand::Rng;
 
 use serde::{Serialize, Deserialize};
-use bincode::{serialize_into, deserialize_from};
+use bincode::{serialize_into, deserialize};
 
 use super::common::{gen_posdata, blake3_hash};
 use super::merkle_tree::{generate_merkle_proof, generate_merkle_tree_from_file, verify_merkle_proof, generate_merkle_tree_from_data};
@@ -79,12 +79,9 @@ pub fn save_data(path: &str, vde_key: &Integer, iv: &Vec<u8>) {
 }
 
 pub fn load_data(path: &str) -> (Integer, Vec<u8>) {
-    let file = OpenOptions::new()
-    .read(true)
-    .open(path)
-    .unwrap();
-
-    let target: PubData = deserialize_from(&file).unwrap();
+    // 从内存中解析：损坏文件中的长度字段不会触发超出文件大小的内存分配
+    let data = read(path).unwrap();
+    let target: PubData = deserialize(&data).unwrap();
     let (vde_key, iv) = (Integer::from_str(&target.vde_key).unwrap(), target.iv);
     (vde_key, iv)
 }
-- 
2.43.0

