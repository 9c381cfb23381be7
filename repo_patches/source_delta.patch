From 56794a1e00b350e251a6c762b16230dd9cd9a3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:57 +0000
Subject: [PATCH 01/39] fix: compare the bytes, not the addresses, in signed
 bytes32 comparison

---
 stdlib/chain_math.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stdlib/chain_math.c b/stdlib/chain_math.c
index 2643626..0f53ebe 100644
--- a/stdlib/chain_math.c
+++ b/stdlib/chain_math.c
@@ -58,9 +58,9 @@ BOOL wrapper_bytes32_slt(const bytes32 *a, const bytes32 *b) {
   // If signs are the same, perform comparison based on magnitude
   // For signed comparison, the rest of the bytes are compared normally
   for (int i = 0; i < 32; i++) {
-    if (a[i] < b[i]) {
+    if (a_bytes[i] < b_bytes[i]) {
       return 1; // a is smaller
-    } else if (a[i] > b[i]) {
+    } else if (a_bytes[i] > b_bytes[i]) {
       return 0; // a is larger
     }
   }
@@ -81,9 +81,9 @@ BOOL wrapper_bytes32_sgt(const bytes32 *a, const bytes32 *b) {
 
   // If signs are the same, perform comparison based on magnitude
   for (int i = 0; i < 32; i++) {
-    if (a[i] > b[i]) {
+    if (a_bytes[i] > b_bytes[i]) {
       return 1; // a is larger
-    } else if (a[i] < b[i]) {
+    } else if (a_bytes[i] < b_bytes[i]) {
       return 0; // a is smaller
     }
   }
-- 
2.43.0


From 52bb2c5ad57632510bd6e32be129ed02b7c7f79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:57 +0000
Subject: [PATCH 02/39] fix: shift small big-endian words by their value in
 wrapper_bytes32_shl

---
 stdlib/chain_math.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stdlib/chain_math.c b/stdlib/chain_math.c
index 0f53ebe..37df8b8 100644
--- a/stdlib/chain_math.c
+++ b/stdlib/chain_math.c
@@ -158,12 +158,14 @@ void wrapper_bytes32_shl(const bytes32 *value, int32_t shift, bytes32 *result) {
     if (shift <= 32 && value_as_u64_array[0] == 0 &&
         value_as_u64_array[1] == 0 && value_as_u64_array[2] == 0 &&
         value_as_u32_array[6] == 0) {
-      uint64_t last_u64 = ((uint64_t)value_as_u32_array[7]) << shift;
+      // the words are big endian, so swap around the shift
+      uint64_t last_u64 =
+          ((uint64_t)__builtin_bswap32(value_as_u32_array[7])) << shift;
       uint64_t *result_as_u64_array = (uint64_t *)result;
       result_as_u64_array[0] = 0;
       result_as_u64_array[1] = 0;
       result_as_u64_array[2] = 0;
-      result_as_u64_array[3] = last_u64;
+      result_as_u64_array[3] = __builtin_bswap64(last_u64);
       return;
     } else {
       // TODO: optimize this
-- 
2.43.0


From 98034dee331b47f74cdb1c0df81c3939bd1af3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:57 +0000
Subject: [PATCH 03/39] fix: use a 256-bit sign mask in wrapper_sign_extend

---
 stdlib/chain.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 327c232..51266a0 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -889,15 +889,15 @@ void wrapper_sign_extend(uint32_t bits, uint256_t *value_ptr,
   // the original value's sign bit, and extends the bits preceding the specified
   // byte count (b) according to the most significant bit's sign.
   uint256_t value = *value_ptr;
-  if (bits > 31) {
+  if (bits >= 31) {
     *result = value;
-    return; // If b is greater than 31, return the original value
+    return; // There is nothing above byte 31, return the original value
   }
   // Calculate the number of bits to extend
   unsigned int bits_to_extend = (bits + 1) * 8;
 
   // Create the mask for the sign bit
-  uint256_t sign_bit_mask = 1ULL << (bits_to_extend - 1);
+  uint256_t sign_bit_mask = ((uint256_t)1) << (bits_to_extend - 1);
   uint256_t extension_mask = ~((((uint256_t)1) << bits_to_extend) - 1);
 
   // Check the sign bit
-- 
2.43.0


From c23a71dc7565ed140e5098dbbf11d7e5fc3a7e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:01 +0000
Subject: [PATCH 04/39] fix: return zeros from calldataload past the end of the
 calldata

---
 stdlib/chain.c | 39 ++++++++++++++++-----------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 51266a0..bf59651 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -92,34 +92,27 @@ static void cachedCallDataCopy(int32_t /* uint8_t* */ memory_ptr,
   }
   memcpy((void *)memory_ptr, cached_calldata + offset, size);
 }
-void wrapper_calldataload_u256(uint32_t calldata_offset, uint256_t *result) {
+// Reads the 32 bytes at the calldata offset, zero past the end of the calldata
+static void calldataload(uint32_t calldata_offset, uint8_t *result) {
   uint32_t calldata_size = cachedCallDataSize();
-  uint8_t data[32] = {0};
-  if ((calldata_offset + 32 > calldata_size)) {
-    // If calldata is insufficient, read remaining part to the front of data
-    // array The rest is already padded with zeros
-    uint32_t read_count = calldata_size - calldata_offset;
-    cachedCallDataCopy((ADDRESS_UINT)&data, calldata_offset, read_count);
-  } else {
-    cachedCallDataCopy((ADDRESS_UINT)&data, calldata_offset, 32);
+  uint32_t read_count = 0;
+  if (calldata_offset < calldata_size) {
+    read_count = calldata_size - calldata_offset;
+    if (read_count > 32) {
+      read_count = 32;
+    }
+    cachedCallDataCopy((ADDRESS_UINT)result, calldata_offset, read_count);
   }
+  // Pad remaining bytes with zeros
+  __memset(result + read_count, 0, 32 - read_count);
+}
+void wrapper_calldataload_u256(uint32_t calldata_offset, uint256_t *result) {
+  uint8_t data[32];
+  calldataload(calldata_offset, data);
   u256_from_big_endian_bytes(data, result);
 }
 void wrapper_calldataload_bytes32(uint32_t calldata_offset, bytes32 *result) {
-  uint32_t calldata_size = cachedCallDataSize();
-  if ((calldata_offset + 32 > calldata_size)) {
-    // If calldata is insufficient, read remaining part to the front of data
-    // array The rest is already padded with zeros
-    uint32_t read_count = calldata_size - calldata_offset;
-    cachedCallDataCopy((ADDRESS_UINT)result, calldata_offset, read_count);
-    // Pad remaining bytes with zeros
-    uint8_t *result_bytes_ptr = (uint8_t *)result;
-    for (int i = read_count; i < 32; i++) {
-      result_bytes_ptr[i] = 0;
-    }
-  } else {
-    cachedCallDataCopy((ADDRESS_UINT)result, calldata_offset, 32);
-  }
+  calldataload(calldata_offset, (uint8_t *)result);
 }
 
 // Optimized function to load just the function selector (first 4 bytes) from
-- 
2.43.0


From a0074a3247e0d76570ce9250f594542ce7f01e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 05/39] fix: copy overlapping ranges correctly in wrapper_mcopy

---
 stdlib/chain.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index bf59651..382d580 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -382,7 +382,16 @@ void wrapper_mcopy(int32_t evm_dst, int32_t evm_src, uint32_t size) {
   evm_make_sure_memory(evm_dst + size);
   uint8_t *dst_memory = evm_get_memory_addr(evm_dst);
   uint8_t *src_memory = evm_get_memory_addr(evm_src);
-  memcpy(dst_memory, src_memory, size);
+  // The ranges may overlap, so copy from the end when moving upwards
+  if (dst_memory > src_memory) {
+    while (size--) {
+      dst_memory[size] = src_memory[size];
+    }
+    return;
+  }
+  for (uint32_t i = 0; i < size; i++) {
+    dst_memory[i] = src_memory[i];
+  }
 }
 
 void wrapper_sstore_u256(uint256_t *slot_ptr, uint256_t *value_ptr) {
-- 
2.43.0


From e9c00b631b912b08540429bdfb4a5fd17894d532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 06/39] fix: move the EVM memory when it cannot grow in place

---
 src/yul2ir/instruction.rs |  5 +----
 stdlib/evm_memory.c       | 39 +++++++++++++++++++++++++++++----------
 stdlib/evm_memory.h       |  6 ++++--
 3 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index f848a75..7eeb195 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -1810,10 +1810,7 @@ impl<'a> Yul2IRContext<'a> {
                 // The first 4 bytes contain the length in big endian format, but we don't skip them
                 let data_offset = global_var_addr;
 
-                let memory_begin = self.build_call(
-                    "evm_get_memory_addr",
-                    &[self.i32_type().const_int(0, false).into()],
-                )?;
+                let memory_begin = self.build_call("evm_get_data_base", &[])?;
                 let memory_begin = self.builder.borrow_mut().build_ptr_to_int(
                     memory_begin.into_pointer_value(),
                     self.i32_type(),
diff --git a/stdlib/evm_memory.c b/stdlib/evm_memory.c
index bdafd56..8ef0d8a 100644
--- a/stdlib/evm_memory.c
+++ b/stdlib/evm_memory.c
@@ -3,15 +3,19 @@
 
 #include "evm_memory.h"
 #include "debug.h"
+#include "stdlib.h"
 
 static int32_t inited_before = 0; // 1 is true, 0 is false
 
 // EVM memory start address,
-// Once set, it remains unchanged. This is possible because after the WASM
-// instance starts (before optimization), the newly grown memory area is treated
-// as EVM memory, preventing conflicts with the LLVM constant pool.
+// It only moves when the memory has to grow and something else was placed
+// behind it. After the WASM instance starts (before optimization), the newly
+// grown memory area is treated as EVM memory, preventing conflicts with the
+// LLVM constant pool.
 static uint8_t *evm_memory_begin = 0;
 static uint8_t *evm_memory_end = 0;
+// The first start address, which negative offsets (constant data) refer to
+static uint8_t *evm_data_base = 0;
 static uint32_t evm_memory_size = 0; // accessible memory range
 static uint32_t evm_memory_full_size = 0;
 
@@ -20,7 +24,6 @@ static uint32_t evm_memory_full_size = 0;
 // Another approach is to use static allocation(current choice)
 // Allocate a data segment and point to it, allowing space without needing to
 // grow; in most cases, 16384 (16k) is sufficient.
-// TODO: Implement memory relocation and growth when exceeding limits
 #define EVM_MEMORY_MAX_SIZE 16384 // 16KB
 static uint8_t evm_memory_init_buffer[EVM_MEMORY_MAX_SIZE] = {0};
 
@@ -54,21 +57,32 @@ void __init_evm_heap(int32_t try_new_wasm_page_as_evm_heap_bool) {
     evm_memory_full_size = EVM_MEMORY_MAX_SIZE;
   }
 
+  evm_data_base = evm_memory_begin;
   inited_before = 1;
 }
 
 uint8_t *evm_make_sure_memory(uint32_t size) {
   if (evm_memory_full_size < size) {
-    uint32_t target_evm_pages = (size + WASM_PAGE_SIZE - 1) / WASM_PAGE_SIZE;
-    uint32_t grow_pages =
-        target_evm_pages - evm_memory_full_size / WASM_PAGE_SIZE;
+    uint32_t before_pages = __builtin_wasm_memory_size(0);
+    // Only the memory at the very end of the linear memory can grow in place.
+    // Otherwise (static buffer, or other pages were allocated after ours) the
+    // contents move to new pages.
+    int32_t in_place =
+        (uint32_t)evm_memory_end == before_pages * WASM_PAGE_SIZE;
+    uint32_t missing_size = in_place ? size - evm_memory_full_size : size;
+    uint32_t grow_pages = (missing_size + WASM_PAGE_SIZE - 1) / WASM_PAGE_SIZE;
     if (__builtin_wasm_memory_grow(0, grow_pages) == -1) {
       __abort("__malloc: failed");
     };
+    if (!in_place) {
+      uint8_t *new_begin = (uint8_t *)(before_pages * WASM_PAGE_SIZE);
+      memcpy(new_begin, evm_memory_begin, evm_memory_size);
+      evm_memory_begin = new_begin;
+      evm_memory_end = new_begin;
+    }
     evm_memory_end += (grow_pages * WASM_PAGE_SIZE);
-    evm_memory_size = size;
-    evm_memory_full_size = target_evm_pages * WASM_PAGE_SIZE;
-    return evm_memory_begin;
+    evm_memory_full_size =
+        (uint32_t)evm_memory_end - (uint32_t)evm_memory_begin;
   }
   if (evm_memory_size < size) {
     // EVM memory is allocated but not accessible for the requested size
@@ -79,9 +93,14 @@ uint8_t *evm_make_sure_memory(uint32_t size) {
 }
 
 uint8_t *evm_get_memory_addr(int32_t offset) {
+  if (offset < 0) {
+    return evm_data_base + offset;
+  }
   return evm_memory_begin + offset;
 }
 
+uint8_t *evm_get_data_base() { return evm_data_base; }
+
 int32_t is_available_evm_memory(uint8_t *ptr, uint32_t size) {
   return ptr >= evm_memory_begin && size <= evm_memory_size;
 }
diff --git a/stdlib/evm_memory.h b/stdlib/evm_memory.h
index b96cf31..a70d778 100644
--- a/stdlib/evm_memory.h
+++ b/stdlib/evm_memory.h
@@ -15,14 +15,16 @@ void __init_evm_heap(int32_t try_new_wasm_page_as_evm_heap_bool);
 // Ensures there is memory space of specified size available for EVM use
 // Memory beyond the specified size requires additional checks to prevent access
 // Returns the starting address of the EVM memory region
-// The starting address of the EVM memory region remains unchanged after
-// modifications
+// The EVM memory region may move when it grows, so take addresses afterwards
 uint8_t *evm_make_sure_memory(uint32_t size);
 
 // Returns the memory address at the given offset
 // If offset < 0, copies data from non-EVM memory region
 uint8_t *evm_get_memory_addr(int32_t offset);
 
+// Returns the address that offsets of constant data are relative to
+uint8_t *evm_get_data_base();
+
 // Checks if ptr is within the accessible memory range of EVM
 // Returns 1(true) if accessible, 0(false) otherwise
 int32_t is_available_evm_memory(uint8_t *ptr, uint32_t size);
-- 
2.43.0


From 33fe9584d781e8f0efa5bd8fb84a741f2e5cef4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 07/39] fix: extend the EVM memory for reads, and not for empty
 ranges

---
 stdlib/chain.c      | 53 ++++++++++++++++++++-------------------------
 stdlib/evm_memory.c | 10 +++++++++
 stdlib/evm_memory.h |  5 +++++
 3 files changed, 39 insertions(+), 29 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 382d580..85624df 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -222,15 +222,14 @@ void wrapper_self_balance(uint256_t *result) {
 }
 
 void wrapper_revert(int32_t error_msg_evm_mem, uint32_t size) {
-  uint8_t *error_msg_ptr = evm_get_memory_addr(error_msg_evm_mem);
+  uint8_t *error_msg_ptr = evm_touch_memory(error_msg_evm_mem, size);
   revert((ADDRESS_UINT)error_msg_ptr, size);
 }
 
 void wrapper_stop() { finish(0, 0); }
 void wrapper_codecopy(int32_t target_evm_mem_offset, int32_t evm_memory_offset,
                       uint32_t size) {
-  evm_make_sure_memory(target_evm_mem_offset + size);
-  uint8_t *target_mem_ptr = evm_get_memory_addr(target_evm_mem_offset);
+  uint8_t *target_mem_ptr = evm_touch_memory(target_evm_mem_offset, size);
   // For Yul, codecopy is sometimes used to copy actual calldata during contract
   // deployment (since in EVM, when deploying a contract, the contract bytecode
   // is init_code + calldata) However, this is different from WASM design. In
@@ -348,12 +347,12 @@ void wrapper_mstore_u8(int32_t evm_mem, uint8_t value) {
 }
 
 void wrapper_mload_u256(int32_t evm_mem, uint256_t *result) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_touch_memory(evm_mem, 32);
   u256_from_big_endian_bytes(memory_ptr, result);
 }
 
 uint32_t wrapper_mload_u32(int32_t evm_mem) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_touch_memory(evm_mem, 32);
   // Read 4 bytes in big-endian order from the last 4 bytes of the 32-byte slot
   uint32_t result = 0;
   for (int i = 0; i < 4; i++) {
@@ -363,7 +362,7 @@ uint32_t wrapper_mload_u32(int32_t evm_mem) {
 }
 
 uint64_t wrapper_mload_u64(int32_t evm_mem) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_touch_memory(evm_mem, 32);
   // Read 8 bytes in big-endian order from the last 8 bytes of the 32-byte slot
   uint64_t result = 0;
   for (int i = 0; i < 8; i++) {
@@ -373,14 +372,14 @@ uint64_t wrapper_mload_u64(int32_t evm_mem) {
 }
 
 void wrapper_mload_bytes32(int32_t evm_mem, bytes32 *result) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_touch_memory(evm_mem, 32);
   // Copy all 32 bytes directly
   memcpy(result, memory_ptr, 32);
 }
 
 void wrapper_mcopy(int32_t evm_dst, int32_t evm_src, uint32_t size) {
-  evm_make_sure_memory(evm_dst + size);
-  uint8_t *dst_memory = evm_get_memory_addr(evm_dst);
+  evm_touch_memory(evm_src, size);
+  uint8_t *dst_memory = evm_touch_memory(evm_dst, size);
   uint8_t *src_memory = evm_get_memory_addr(evm_src);
   // The ranges may overlap, so copy from the end when moving upwards
   if (dst_memory > src_memory) {
@@ -495,12 +494,12 @@ void wrapper_loadimmutable(uint256_t *slot_ptr, uint256_t *result) {
 }
 
 void wrapper_keccak256(int32_t evm_mem, uint32_t size, bytes32 *result) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_touch_memory(evm_mem, size);
   keccak256((ADDRESS_UINT)memory_ptr, size, (ADDRESS_UINT)result);
 }
 
 void wrapper_return(int32_t src_evm_mem, uint32_t size) {
-  uint8_t *memory_ptr = evm_get_memory_addr(src_evm_mem);
+  uint8_t *memory_ptr = evm_touch_memory(src_evm_mem, size);
   finish((ADDRESS_UINT)memory_ptr, size);
 }
 
@@ -510,14 +509,14 @@ void wrapper_decode_big_endian_i256_from_wasm_mem(uint8_t *wasm_mem,
 }
 
 void wrapper_log0(int32_t data_evm_mem, uint32_t data_size) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_touch_memory(data_evm_mem, data_size);
   uint32_t num_topics = 0;
   emitLogEvent((ADDRESS_UINT)memory_ptr, data_size, num_topics, 0, 0, 0, 0);
 }
 
 void wrapper_log1(int32_t data_evm_mem, uint32_t data_size,
                   bytes32 *topic0_ptr) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_touch_memory(data_evm_mem, data_size);
 
   uint32_t num_topics = 1;
   uint8_t *topic0 = (uint8_t *)topic0_ptr;
@@ -528,7 +527,7 @@ void wrapper_log1(int32_t data_evm_mem, uint32_t data_size,
 
 void wrapper_log2(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
                   bytes32 *topic1_ptr) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_touch_memory(data_evm_mem, data_size);
 
   uint8_t *topic0 = (uint8_t *)topic0_ptr;
   uint8_t *topic1 = (uint8_t *)topic1_ptr;
@@ -541,7 +540,7 @@ void wrapper_log2(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
 
 void wrapper_log3(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
                   bytes32 *topic1_ptr, bytes32 *topic2_ptr) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_touch_memory(data_evm_mem, data_size);
 
   uint8_t *topic0 = (uint8_t *)topic0_ptr;
   uint8_t *topic1 = (uint8_t *)topic1_ptr;
@@ -557,7 +556,7 @@ void wrapper_log3(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
 void wrapper_log4(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
                   bytes32 *topic1_ptr, bytes32 *topic2_ptr,
                   bytes32 *topic3_ptr) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_touch_memory(data_evm_mem, data_size);
 
   uint8_t *topic0 = (uint8_t *)topic0_ptr;
   uint8_t *topic1 = (uint8_t *)topic1_ptr;
@@ -576,7 +575,7 @@ void wrapper_create(uint256_t *value, int32_t code_evm_mem, int32_t code_length,
   uint8_t value_bytes[32];
   u256_to_big_endian(value_u256, value_bytes);
 
-  uint8_t *code_mem = evm_get_memory_addr(code_evm_mem);
+  uint8_t *code_mem = evm_touch_memory(code_evm_mem, code_length);
 
   // The first 4 bytes of code_mem is a big-endian uint32_t representing the
   // wasm bytecode length The remaining bytes are calldata
@@ -604,7 +603,7 @@ void wrapper_create2(uint256_t *value, int32_t code_evm_mem,
   uint8_t value_bytes[32];
   u256_to_big_endian(value_u256, value_bytes);
 
-  uint8_t *code_mem = evm_get_memory_addr(code_evm_mem);
+  uint8_t *code_mem = evm_touch_memory(code_evm_mem, code_length);
 
   // The first 4 bytes of code_mem is a big-endian uint32_t representing the
   // wasm bytecode length The remaining bytes are calldata
@@ -689,7 +688,7 @@ int wrapper_call_contract(uint64_t gas, bytes32 *callee_addr_ptr,
   uint8_t value_bytes[32];
   u256_to_big_endian(value_u256, value_bytes);
 
-  uint8_t *in_offset = evm_get_memory_addr(in_evm_offset);
+  uint8_t *in_offset = evm_touch_memory(in_evm_offset, in_length);
 
   int32_t retCode = callContract(gas, 12 + (ADDRESS_UINT)callee_addr_ptr,
                                  (ADDRESS_UINT)&value_bytes,
@@ -706,7 +705,7 @@ int wrapper_call_contract(uint64_t gas, bytes32 *callee_addr_ptr,
 int wrapper_delegatecall(uint64_t gas, bytes32 *callee_addr_ptr,
                          int32_t in_evm_offset, int32_t in_length,
                          int32_t out_evm_offset, int32_t out_length) {
-  uint8_t *in_offset = evm_get_memory_addr(in_evm_offset);
+  uint8_t *in_offset = evm_touch_memory(in_evm_offset, in_length);
   int32_t retCode = callDelegate(gas, 12 + (ADDRESS_UINT)callee_addr_ptr,
                                  (ADDRESS_UINT)in_offset, in_length);
 
@@ -721,7 +720,7 @@ int wrapper_delegatecall(uint64_t gas, bytes32 *callee_addr_ptr,
 int wrapper_staticcall(uint64_t gas, bytes32 *callee_addr_ptr,
                        int32_t in_evm_offset, int32_t in_length,
                        int32_t out_evm_offset, int32_t out_length) {
-  uint8_t *in_offset = evm_get_memory_addr(in_evm_offset);
+  uint8_t *in_offset = evm_touch_memory(in_evm_offset, in_length);
   int32_t retCode = callStatic(gas, 12 + (ADDRESS_UINT)callee_addr_ptr,
                                (ADDRESS_UINT)in_offset, in_length);
   if (retCode != 0 && is_precompiled_contract(callee_addr_ptr)) {
@@ -801,8 +800,7 @@ uint32_t wrapper_returndata_size() { return (uint32_t)getReturnDataSize(); }
 
 void wrapper_calldata_copy(int32_t dst_evm, uint32_t calldata_offset,
                            uint32_t len) {
-  evm_make_sure_memory(dst_evm + len);
-  uint8_t *dst_memory_ptr = evm_get_memory_addr(dst_evm);
+  uint8_t *dst_memory_ptr = evm_touch_memory(dst_evm, len);
 
   // For out of bound bytes, 0s will be copied.
   uint32_t calldata_size = cachedCallDataSize();
@@ -819,8 +817,7 @@ void wrapper_calldata_copy(int32_t dst_evm, uint32_t calldata_offset,
 
 void wrapper_returndata_copy(int32_t dst_evm, uint32_t return_data_offset,
                              uint32_t len) {
-  evm_make_sure_memory(dst_evm + len);
-  uint8_t *dst_memory_ptr = evm_get_memory_addr(dst_evm);
+  uint8_t *dst_memory_ptr = evm_touch_memory(dst_evm, len);
 
   returnDataCopy((ADDRESS_UINT)dst_memory_ptr, (uint32_t)return_data_offset,
                  len);
@@ -854,8 +851,7 @@ uint32_t wrapper_extcode_size(bytes32 *addr_ptr) {
 
 void wrapper_extcode_copy(bytes32 *addr_ptr, int32_t dst_evm, uint32_t offset,
                           uint32_t len) {
-  evm_make_sure_memory(dst_evm + len);
-  uint8_t *dst = evm_get_memory_addr(dst_evm);
+  uint8_t *dst = evm_touch_memory(dst_evm, len);
   externalCodeCopy(12 + (ADDRESS_UINT)addr_ptr, (ADDRESS_UINT)dst, offset, len);
 }
 
@@ -879,8 +875,7 @@ void wrapper_extcode_hash(bytes32 *addr_ptr, bytes32 *result) {
 }
 
 void wrapper_data_copy(int32_t dst_evm, int32_t src_evm, uint32_t len) {
-  evm_make_sure_memory(dst_evm + len);
-  uint8_t *dst = evm_get_memory_addr(dst_evm);
+  uint8_t *dst = evm_touch_memory(dst_evm, len);
   uint8_t *src = evm_get_memory_addr(src_evm);
   memcpy(dst, src, len);
 }
diff --git a/stdlib/evm_memory.c b/stdlib/evm_memory.c
index 8ef0d8a..d479559 100644
--- a/stdlib/evm_memory.c
+++ b/stdlib/evm_memory.c
@@ -92,6 +92,16 @@ uint8_t *evm_make_sure_memory(uint32_t size) {
   return evm_memory_begin;
 }
 
+uint8_t *evm_touch_memory(int32_t offset, uint32_t size) {
+  if (size == 0) {
+    return evm_memory_begin;
+  }
+  if (offset >= 0) {
+    evm_make_sure_memory(offset + size);
+  }
+  return evm_get_memory_addr(offset);
+}
+
 uint8_t *evm_get_memory_addr(int32_t offset) {
   if (offset < 0) {
     return evm_data_base + offset;
diff --git a/stdlib/evm_memory.h b/stdlib/evm_memory.h
index a70d778..2540223 100644
--- a/stdlib/evm_memory.h
+++ b/stdlib/evm_memory.h
@@ -18,6 +18,11 @@ void __init_evm_heap(int32_t try_new_wasm_page_as_evm_heap_bool);
 // The EVM memory region may move when it grows, so take addresses afterwards
 uint8_t *evm_make_sure_memory(uint32_t size);
 
+// Makes the range accessible, whether it is read or written (EVM memory that
+// was never written reads as zero), and returns its address
+// An empty range does not extend the memory, wherever it starts
+uint8_t *evm_touch_memory(int32_t offset, uint32_t size);
+
 // Returns the memory address at the given offset
 // If offset < 0, copies data from non-EVM memory region
 uint8_t *evm_get_memory_addr(int32_t offset);
-- 
2.43.0


From b416949178ab0f138d580e7ce41fe164622ac1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:36 +0000
Subject: [PATCH 08/39] fix: report the EVM memory size from msize

---
 stdlib/chain.c      | 4 ++--
 stdlib/evm_memory.c | 2 ++
 stdlib/evm_memory.h | 3 +++
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 85624df..a08502e 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -341,7 +341,7 @@ void wrapper_mstore_u64(int32_t evm_mem, uint64_t value) {
 
 void wrapper_mstore_u8(int32_t evm_mem, uint8_t value) {
   // Automatically expand memory if it exceeds EVM accessible memory
-  evm_make_sure_memory(evm_mem + 32);
+  evm_make_sure_memory(evm_mem + 1);
   uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
   *memory_ptr = value & 0xff;
 }
@@ -779,7 +779,7 @@ void wrapper_exp(uint256_t *base_ptr, uint256_t *exp_ptr, uint256_t *result) {
 }
 
 uint64_t wrapper_memory_size() {
-  return (uint64_t)__builtin_wasm_memory_size(0);
+  return (uint64_t)evm_get_memory_size();
 }
 
 uint64_t wrapper_gas() { return (uint64_t)getGasLeft(); }
diff --git a/stdlib/evm_memory.c b/stdlib/evm_memory.c
index d479559..9838eaa 100644
--- a/stdlib/evm_memory.c
+++ b/stdlib/evm_memory.c
@@ -109,6 +109,8 @@ uint8_t *evm_get_memory_addr(int32_t offset) {
   return evm_memory_begin + offset;
 }
 
+uint32_t evm_get_memory_size() { return (evm_memory_size + 31) / 32 * 32; }
+
 uint8_t *evm_get_data_base() { return evm_data_base; }
 
 int32_t is_available_evm_memory(uint8_t *ptr, uint32_t size) {
diff --git a/stdlib/evm_memory.h b/stdlib/evm_memory.h
index 2540223..496ee08 100644
--- a/stdlib/evm_memory.h
+++ b/stdlib/evm_memory.h
@@ -27,6 +27,9 @@ uint8_t *evm_touch_memory(int32_t offset, uint32_t size);
 // If offset < 0, copies data from non-EVM memory region
 uint8_t *evm_get_memory_addr(int32_t offset);
 
+// Returns the number of bytes of EVM memory touched so far, in whole words
+uint32_t evm_get_memory_size();
+
 // Returns the address that offsets of constant data are relative to
 uint8_t *evm_get_data_base();
 
-- 
2.43.0


From 30da09faa0842f05a226b491397e5e8224d50ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:58 +0000
Subject: [PATCH 09/39] fix: give failed external calls back to the caller

---
 stdlib/chain.c | 38 +++++++++++---------------------------
 1 file changed, 11 insertions(+), 27 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index a08502e..fc9aa60 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -631,34 +631,18 @@ void wrapper_create2(uint256_t *value, int32_t code_evm_mem,
 
 BOOL write_call_data(int32_t call_status, int32_t out_evm_offset,
                      int32_t out_length) {
-  if (call_status == 2) {
-    revert((ADDRESS_UINT) "call contract failed", 20);
-    return 0;
-  } else if (out_length == 0) {
-    return call_status == 0 ? 1 : 0;
-  } else {
-    int32_t ret_data_size = getReturnDataSize();
-    if (ret_data_size < out_length) {
-      if (call_status == 0) {
-        // success call
-        wrapper_returndata_copy(out_evm_offset, 0, ret_data_size);
-        return 1; // true
-      }
-#define MAX_REVERT_LENGTH 1024
-      static uint8_t tmp_revert_data[MAX_REVERT_LENGTH] = {0};
-      if (ret_data_size == 0) {
-        revert((ADDRESS_UINT) "call failed with no revert data", 31);
-      } else if (ret_data_size <= MAX_REVERT_LENGTH) {
-        returnDataCopy((ADDRESS_UINT)&tmp_revert_data, 0, ret_data_size);
-        revert((ADDRESS_UINT)&tmp_revert_data, ret_data_size);
-      } else {
-        revert((ADDRESS_UINT) "out length is not enough", 24);
-      }
-    } else {
-      wrapper_returndata_copy(out_evm_offset, 0, out_length);
-    }
-    return call_status == 0 ? 1 : 0; // true or false
+  // Whether the call succeeded or not, as much of the return data as fits goes
+  // to the output area; a failed call (reverted or not) is for the caller to
+  // deal with.
+  if (out_length != 0) {
+    evm_touch_memory(out_evm_offset, out_length);
+    uint32_t ret_data_size = (uint32_t)getReturnDataSize();
+    uint32_t copy_size = ret_data_size < (uint32_t)out_length
+                             ? ret_data_size
+                             : (uint32_t)out_length;
+    wrapper_returndata_copy(out_evm_offset, 0, copy_size);
   }
+  return call_status == 0 ? 1 : 0; // true or false
 }
 
 static BOOL is_precompiled_contract(bytes32 *callee_addr_ptr) {
-- 
2.43.0


From 4979a708f959d66eed030043069be64f499c373d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:58 +0000
Subject: [PATCH 10/39] fix: return the zero address when a contract creation
 fails

---
 stdlib/chain.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index fc9aa60..6500fa8 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -592,10 +592,10 @@ void wrapper_create(uint256_t *value, int32_t code_evm_mem, int32_t code_length,
       createContract((ADDRESS_UINT)&value_bytes, (ADDRESS_UINT)code_mem,
                      wasm_code_length + 4, (ADDRESS_UINT)calldata_mem,
                      calldata_length, 0, 0, 12 + (ADDRESS_UINT)result);
-  if (ret_code == 0) {
-    return;
+  if (ret_code != 0) {
+    // no contract was created, the address is zero
+    __memset(*result, 0, sizeof(bytes32));
   }
-  revert((ADDRESS_UINT) "create contract failed", 22);
 }
 void wrapper_create2(uint256_t *value, int32_t code_evm_mem,
                      int32_t code_length, uint256_t *salt, bytes32 *result) {
@@ -623,10 +623,10 @@ void wrapper_create2(uint256_t *value, int32_t code_evm_mem,
       (ADDRESS_UINT)&value_bytes, (ADDRESS_UINT)code_mem, wasm_code_length + 4,
       (ADDRESS_UINT)calldata_mem, calldata_length, (ADDRESS_UINT)&salt_bytes, 1,
       12 + (ADDRESS_UINT)result);
-  if (ret_code == 0) {
-    return;
+  if (ret_code != 0) {
+    // no contract was created, the address is zero
+    __memset(*result, 0, sizeof(bytes32));
   }
-  revert((ADDRESS_UINT) "create2 contract failed", 23);
 }
 
 BOOL write_call_data(int32_t call_status, int32_t out_evm_offset,
-- 
2.43.0


From 3b3518fa834093bf81bea3d1c7e92dad76c8b6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:24 +0000
Subject: [PATCH 11/39] fix: copy code up to its end, and zeros from there, in
 wrapper_codecopy

---
 stdlib/chain.c | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 6500fa8..798c2dd 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -247,25 +247,34 @@ void wrapper_codecopy(int32_t target_evm_mem_offset, int32_t evm_memory_offset,
     return;
   }
 
-  int32_t cur_code_size = getCodeSize();
+  uint32_t offset = (uint32_t)evm_memory_offset;
+  uint32_t cur_code_size = (uint32_t)getCodeSize();
 
-  if ((evm_memory_offset + size) < cur_code_size) {
+  if (offset < cur_code_size && size > 0) {
     // Copy current WASM contract bytecode
-    codeCopy((ADDRESS_UINT)target_mem_ptr, evm_memory_offset, size);
-    return;
-  }
-  // Copy actual calldata, input parameter is wasm code size + calldata_offset
-  int32_t calldata_offset = evm_memory_offset - cur_code_size;
-
-  if (calldata_offset < 0) {
-    __builtin_unreachable();
+    uint32_t code_len =
+        size < cur_code_size - offset ? size : cur_code_size - offset;
+    codeCopy((ADDRESS_UINT)target_mem_ptr, offset, code_len);
+    target_mem_ptr += code_len;
+    offset += code_len;
+    size -= code_len;
   }
-  uint32_t calldata_size = cachedCallDataSize();
-  if ((calldata_offset + size) > calldata_size) {
-    // Only 4 bytes larger might be the input size
-    __builtin_unreachable();
+  if (is_deploying_tx() && size > 0) {
+    // Copy actual calldata, input parameter is wasm code size + calldata_offset
+    uint32_t calldata_offset = offset - cur_code_size;
+    uint32_t calldata_size = cachedCallDataSize();
+    if (calldata_offset < calldata_size) {
+      uint32_t data_len = size < calldata_size - calldata_offset
+                              ? size
+                              : calldata_size - calldata_offset;
+      cachedCallDataCopy((ADDRESS_UINT)target_mem_ptr, calldata_offset,
+                         data_len);
+      target_mem_ptr += data_len;
+      size -= data_len;
+    }
   }
-  cachedCallDataCopy((ADDRESS_UINT)target_mem_ptr, calldata_offset, size);
+  // For out of bound bytes, 0s will be copied.
+  __memset(target_mem_ptr, 0, size);
 }
 uint32_t wrapper_memory_guard(uint32_t size) {
   evm_make_sure_memory(size);
-- 
2.43.0


From e639dcfcb895fe057822d9b547b933b07145cf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:24 +0000
Subject: [PATCH 12/39] fix: place temporaries inside the pages allocated for
 them

---
 stdlib/chain.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 798c2dd..721f979 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -943,7 +943,7 @@ bytes32 *memory_alloca_bytes32() {
     return result;
   }
   if ((extra_memory_alloca_bytes32_memory_begin +
-       extra_memory_alloca_bytes32_memory_used_size + sizeof(bytes32)) >=
+       extra_memory_alloca_bytes32_memory_used_size + sizeof(bytes32)) >
       extra_memory_alloca_bytes32_memory_end) {
     // if extra memory buffer is not enough, allocate new memory buffer
     uint32_t before_pages = __builtin_wasm_memory_size(0);
@@ -952,6 +952,11 @@ bytes32 *memory_alloca_bytes32() {
     if (after_pages == before_pages) {
       __abort("wasm memory grow failed");
     }
+    // the new page does not follow the buffer if other pages were allocated
+    // since, e.g. for the EVM memory
+    extra_memory_alloca_bytes32_memory_begin =
+        (uint8_t *)(before_pages * WASM_PAGE_SIZE);
+    extra_memory_alloca_bytes32_memory_used_size = 0;
     extra_memory_alloca_bytes32_memory_end =
         (uint8_t *)(after_pages * WASM_PAGE_SIZE);
     bytes32 *result = (bytes32 *)(extra_memory_alloca_bytes32_memory_begin +
-- 
2.43.0


From 5c49ee5cb87bf55e773ea809e1dc1000794fdeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:24 +0000
Subject: [PATCH 13/39] fix: round the size, not the pointer, in
 wrapper_allocate_memory

---
 stdlib/chain.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 721f979..d792647 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -995,8 +995,8 @@ int32_t wrapper_allocate_memory(uint32_t size) {
   //     mstore(64, newFreePtr)
   // }
   int32_t mem_ptr = wrapper_get_memptr_global();
-  int32_t new_free_ptr = mem_ptr + (size + 31) & ~31;
-  if (new_free_ptr <= mem_ptr) {
+  int32_t new_free_ptr = mem_ptr + ((size + 31) & ~31);
+  if (new_free_ptr < mem_ptr) {
     __abort("allocate memory failed");
   }
   wrapper_set_memptr_global(new_free_ptr);
-- 
2.43.0


From 2928bc50cb7538d7fafac864c6f3eb29c39ab42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:35 +0000
Subject: [PATCH 14/39] fix: mask the addresses in
 wrapper_optimized_erc20_fun_transfer

---
 stdlib/chain.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index d792647..7314ef6 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -1083,9 +1083,14 @@ void wrapper_optimized_erc20_fun_transfer(bytes32 *from, bytes32 *to,
     return;
   }
   uint8_t tmp_keccak256_result[32];
+  // and(var_from, sub(shl(160, 1), 1)), and(var_to, sub(shl(160, 1), 1))
+  uint8_t from_address[32] = {0};
+  memcpy(from_address + 12, ((uint8_t *)from) + 12, 20);
+  uint8_t to_address[32] = {0};
+  memcpy(to_address + 12, ((uint8_t *)to) + 12, 20);
   // calculate the slot of the balance of the from address
   uint8_t tmp_to_keccak256[64] = {0};
-  memcpy(tmp_to_keccak256, from, 32);
+  memcpy(tmp_to_keccak256, from_address, 32);
   keccak256((ADDRESS_UINT)tmp_to_keccak256, 0x40,
             (ADDRESS_UINT)tmp_keccak256_result);
   uint256_t tmp_balance_u256;
@@ -1100,7 +1105,7 @@ void wrapper_optimized_erc20_fun_transfer(bytes32 *from, bytes32 *to,
     // shl(226, 0x391434e3) =
     // 0xe450d38c00000000000000000000000000000000000000000000000000000000
     uint8_t revert_msg[100] = {0xe4, 0x50, 0xd3, 0x8c};
-    memcpy(revert_msg + 4, from, 32);
+    memcpy(revert_msg + 4, from_address, 32);
     uint8_t bigendian_balance[32];
     u256_to_big_endian_bytes(&tmp_balance_u256, (uint8_t *)bigendian_balance);
     memcpy(revert_msg + 36, bigendian_balance, 32);
@@ -1116,7 +1121,7 @@ void wrapper_optimized_erc20_fun_transfer(bytes32 *from, bytes32 *to,
   storageStoreLittleEndian((ADDRESS_UINT)tmp_keccak256_result,
                            (ADDRESS_UINT)&new_from_balance_u256);
   // calculate the slot of the balance of the to address
-  memcpy(tmp_to_keccak256, to, 32);
+  memcpy(tmp_to_keccak256, to_address, 32);
   keccak256((ADDRESS_UINT)tmp_to_keccak256, 0x40,
             (ADDRESS_UINT)tmp_keccak256_result);
   storageLoadLittleEndian((ADDRESS_UINT)tmp_keccak256_result,
@@ -1136,7 +1141,7 @@ void wrapper_optimized_erc20_fun_transfer(bytes32 *from, bytes32 *to,
                             0x95, 0x2b, 0xa7, 0xf1, 0x63, 0xc4, 0xa1, 0x16,
                             0x28, 0xf5, 0x5a, 0x4d, 0xf5, 0x23, 0xb3, 0xef};
   emitLogEvent((ADDRESS_UINT)var_value, 32, 3, (ADDRESS_UINT)log_topic1,
-               (ADDRESS_UINT)from, (ADDRESS_UINT)to, 0);
+               (ADDRESS_UINT)from_address, (ADDRESS_UINT)to_address, 0);
 }
 
 void wrapper_debug_i256(uint256_t *value_ptr) {
-- 
2.43.0


From ddb0c6074f436bd8f2c7a7893d529de4ecdbe24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:54 +0000
Subject: [PATCH 15/39] fix: end a block comment at the first */, also after a
 run of asterisks

---
 src/yul2ir/utils.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/yul2ir/utils.rs b/src/yul2ir/utils.rs
index 559962d..9bdd735 100644
--- a/src/yul2ir/utils.rs
+++ b/src/yul2ir/utils.rs
@@ -391,13 +391,13 @@ pub fn remove_comments(code: &str) -> String {
                         '*' => {
                             in_multiline = true;
                             // Skip until matching */
-                            while let Some(c) = chars.next() {
-                                if c == '*' {
-                                    if let Some('/') = chars.next() {
-                                        in_multiline = false;
-                                        break;
-                                    }
+                            let mut prev = None;
+                            for c in chars.by_ref() {
+                                if prev == Some('*') && c == '/' {
+                                    in_multiline = false;
+                                    break;
                                 }
+                                prev = Some(c);
                             }
                         }
                         _ => {
-- 
2.43.0


From f033ee5ca80a2ce28b588fc06f84fa3a161b1082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:54 +0000
Subject: [PATCH 16/39] fix: an escaped quote does not end a string when
 comments are removed

---
 src/yul2ir/utils.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/yul2ir/utils.rs b/src/yul2ir/utils.rs
index 9bdd735..206a271 100644
--- a/src/yul2ir/utils.rs
+++ b/src/yul2ir/utils.rs
@@ -376,6 +376,13 @@ pub fn remove_comments(code: &str) -> String {
                 }
                 result.push(c);
             }
+            '\\' if in_string => {
+                // an escaped character never ends the string
+                result.push(c);
+                if let Some(escaped) = chars.next() {
+                    result.push(escaped);
+                }
+            }
             '/' if !in_string => {
                 if let Some(next) = chars.next() {
                     match next {
-- 
2.43.0


From 6d3d5e7e8a7c2ecf224c1260ae6b79c90e7e3a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:42 +0000
Subject: [PATCH 17/39] fix: read \r and byte escapes with lower-case digits in
 string literals

---
 src/yul.lalrpop | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yul.lalrpop b/src/yul.lalrpop
index 8a85e8e..cb2fa5c 100644
--- a/src/yul.lalrpop
+++ b/src/yul.lalrpop
@@ -235,7 +235,7 @@ pub HexDataInner: String =  <s:r#"hex"[0-9a-fA-F]+""#>  => s.trim_start_matches(
 
 pub DataSegmentWithNameInner: String =  <s:r#"data "[a-zA-Z_0-9.]+""#>  => s.trim_start_matches("data").trim_matches(' ').trim_matches('\"').to_string();
 
-pub StringInner: String = <s:r#""((\\("|\\|n|t|(x[0-9A-F][0-9A-F])|(u\{[0-9A-F][0-9A-F][0-9A-F][0-9A-F]\})|[ \n\t\r\f]+\\))|[^"\n\\])*""#> => {
+pub StringInner: String = <s:r#""((\\("|\\|n|r|t|(x[0-9a-fA-F][0-9a-fA-F])|(u\{[0-9A-F][0-9A-F][0-9A-F][0-9A-F]\})|[ \n\t\r\f]+\\))|[^"\n\\])*""#> => {
     let escape_ignore_reg = Regex::new("\\\\[ \\n\\t\\r\\f]+\\\\").unwrap();
     let mut s = String::from(escape_ignore_reg.replace(s, ""));
     s.remove(0);
-- 
2.43.0


From 840e19cd22782279a7acba42dea46d79258e04eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:42 +0000
Subject: [PATCH 18/39] fix: read identifiers that begin with a dollar sign

---
 src/yul.lalrpop | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yul.lalrpop b/src/yul.lalrpop
index cb2fa5c..4eb6f73 100644
--- a/src/yul.lalrpop
+++ b/src/yul.lalrpop
@@ -225,7 +225,7 @@ pub Identifier: ast::Identifier = {
     }
 }
 
-pub Name: String = <s:r"[a-zA-Z_][a-zA-Z_0-9.$]*"> => String::from(s);
+pub Name: String = <s:r"[a-zA-Z_$][a-zA-Z_0-9.$]*"> => String::from(s);
 
 pub DecimalNumberInner: String = <s:r"[0-9]+"> => String::from(s);
 
-- 
2.43.0


From e8dd2db71ff8a3fcac6c08b95fc777b00fa396f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:33 +0000
Subject: [PATCH 19/39] fix: an escaped backslash is not the start of a line
 continuation

---
 src/yul.lalrpop | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/yul.lalrpop b/src/yul.lalrpop
index 4eb6f73..2cb0091 100644
--- a/src/yul.lalrpop
+++ b/src/yul.lalrpop
@@ -236,8 +236,9 @@ pub HexDataInner: String =  <s:r#"hex"[0-9a-fA-F]+""#>  => s.trim_start_matches(
 pub DataSegmentWithNameInner: String =  <s:r#"data "[a-zA-Z_0-9.]+""#>  => s.trim_start_matches("data").trim_matches(' ').trim_matches('\"').to_string();
 
 pub StringInner: String = <s:r#""((\\("|\\|n|r|t|(x[0-9a-fA-F][0-9a-fA-F])|(u\{[0-9A-F][0-9A-F][0-9A-F][0-9A-F]\})|[ \n\t\r\f]+\\))|[^"\n\\])*""#> => {
-    let escape_ignore_reg = Regex::new("\\\\[ \\n\\t\\r\\f]+\\\\").unwrap();
-    let mut s = String::from(escape_ignore_reg.replace(s, ""));
+    // drop the line continuations; the other escapes are kept (group 1)
+    let escape_ignore_reg = Regex::new("(\\\\[^ \\n\\t\\r\\f])|\\\\[ \\n\\t\\r\\f]+\\\\").unwrap();
+    let mut s = String::from(escape_ignore_reg.replace_all(s, "$1"));
     s.remove(0);
     s.pop();
     utils::unescape_str_wrap_error(s.as_str())
-- 
2.43.0


From 4229bb97c64f442f9d115fbd9a27228301d6cbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:00 +0000
Subject: [PATCH 20/39] fix: division and remainder by zero give zero, and MIN
 / -1 is defined

---
 src/yul2ir/context.rs     | 59 +++++++++++++++++++++++++++++++++++++++
 src/yul2ir/instruction.rs | 24 +++-------------
 2 files changed, 63 insertions(+), 20 deletions(-)

diff --git a/src/yul2ir/context.rs b/src/yul2ir/context.rs
index df88f63..d626672 100644
--- a/src/yul2ir/context.rs
+++ b/src/yul2ir/context.rs
@@ -1033,6 +1033,65 @@ impl<'ctx> Yul2IRContext<'ctx> {
         }
     }
 
+    /// Division and remainder as the EVM defines them. A zero divisor gives zero, and the most negative
+    /// value divided by -1 is itself; in LLVM both are undefined, so neither may reach the instruction.
+    pub fn build_checked_division(
+        &self,
+        lhs: IntValue<'ctx>,
+        rhs: IntValue<'ctx>,
+        signed: bool,
+        remainder: bool,
+    ) -> Result<IntValue<'ctx>, ASTLoweringError> {
+        let ty = lhs.get_type();
+        let zero = ty.const_zero();
+        let one = ty.const_int(1, false);
+        let by_zero = self.is_int_equal(rhs, zero)?;
+        let mut divisor = self.build_int_select(by_zero, one, rhs)?;
+        let mut by_minus_one = None;
+        if signed {
+            let cond = self.is_int_equal(rhs, ty.const_all_ones())?;
+            divisor = self.build_int_select(cond, one, divisor)?;
+            by_minus_one = Some(cond);
+        }
+        let builder = self.builder.borrow_mut();
+        let mut result = match (signed, remainder) {
+            (false, false) => builder.build_int_unsigned_div(lhs, divisor, "div_result")?,
+            (false, true) => builder.build_int_unsigned_rem(lhs, divisor, "mod_result")?,
+            (true, false) => builder.build_int_signed_div(lhs, divisor, "sdiv_result")?,
+            (true, true) => builder.build_int_signed_rem(lhs, divisor, "smod_result")?,
+        };
+        drop(builder);
+        if let (Some(by_minus_one), false) = (by_minus_one, remainder) {
+            let negated = self.builder.borrow_mut().build_int_sub(zero, lhs, "")?;
+            result = self.build_int_select(by_minus_one, negated, result)?;
+        }
+        self.build_int_select(by_zero, zero, result)
+    }
+
+    fn is_int_equal(
+        &self,
+        lhs: IntValue<'ctx>,
+        rhs: IntValue<'ctx>,
+    ) -> Result<IntValue<'ctx>, ASTLoweringError> {
+        Ok(self
+            .builder
+            .borrow_mut()
+            .build_int_compare(IntPredicate::EQ, lhs, rhs, "")?)
+    }
+
+    fn build_int_select(
+        &self,
+        cond: IntValue<'ctx>,
+        then: IntValue<'ctx>,
+        otherwise: IntValue<'ctx>,
+    ) -> Result<IntValue<'ctx>, ASTLoweringError> {
+        Ok(self
+            .builder
+            .borrow_mut()
+            .build_select(cond, then, otherwise, "")?
+            .into_int_value())
+    }
+
     pub fn int_as_i32(
         &self,
         int_value: IntValue<'ctx>,
diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 7eeb195..f02e059 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -713,11 +713,7 @@ impl<'a> Yul2IRContext<'a> {
                 let ret_value_ty = YulLowLevelValueType::from_int_type(arg0.get_type());
                 Ok(YulLowLevelValue {
                     value_type: ret_value_ty,
-                    value: self
-                        .builder
-                        .borrow_mut()
-                        .build_int_unsigned_div(arg0, arg1, "div_result")?
-                        .into(),
+                    value: self.build_checked_division(arg0, arg1, false, false)?.into(),
                 })
             }
             YulInstructionName::SDiv => {
@@ -729,11 +725,7 @@ impl<'a> Yul2IRContext<'a> {
                 let ret_value_ty = YulLowLevelValueType::from_int_type(arg0.get_type());
                 Ok(YulLowLevelValue {
                     value_type: ret_value_ty,
-                    value: self
-                        .builder
-                        .borrow_mut()
-                        .build_int_signed_div(arg0, arg1, "sdiv_result")?
-                        .into(),
+                    value: self.build_checked_division(arg0, arg1, true, false)?.into(),
                 })
             }
             YulInstructionName::Mod => {
@@ -745,11 +737,7 @@ impl<'a> Yul2IRContext<'a> {
                 let ret_value_ty = YulLowLevelValueType::from_int_type(arg0.get_type());
                 Ok(YulLowLevelValue {
                     value_type: ret_value_ty,
-                    value: self
-                        .builder
-                        .borrow_mut()
-                        .build_int_unsigned_rem(arg0, arg1, "mod_result")?
-                        .into(),
+                    value: self.build_checked_division(arg0, arg1, false, true)?.into(),
                 })
             }
             YulInstructionName::SMod => {
@@ -761,11 +749,7 @@ impl<'a> Yul2IRContext<'a> {
                 let ret_value_ty = YulLowLevelValueType::from_int_type(arg0.get_type());
                 Ok(YulLowLevelValue {
                     value_type: ret_value_ty,
-                    value: self
-                        .builder
-                        .borrow_mut()
-                        .build_int_signed_rem(arg0, arg1, "smod_result")?
-                        .into(),
+                    value: self.build_checked_division(arg0, arg1, true, true)?.into(),
                 })
             }
             YulInstructionName::Exp => {
-- 
2.43.0


From dff74cfcd3323e2b84ba8ed2ad5796f0e13f6efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:00 +0000
Subject: [PATCH 21/39] fix: shift amounts and byte indices are not cut to 32
 bits

---
 src/yul2ir/context.rs     | 22 ++++++++++++++++++-
 src/yul2ir/instruction.rs | 46 ++++++++++++++++++++++-----------------
 2 files changed, 47 insertions(+), 21 deletions(-)

diff --git a/src/yul2ir/context.rs b/src/yul2ir/context.rs
index d626672..45c3d63 100644
--- a/src/yul2ir/context.rs
+++ b/src/yul2ir/context.rs
@@ -1079,7 +1079,27 @@ impl<'ctx> Yul2IRContext<'ctx> {
             .build_int_compare(IntPredicate::EQ, lhs, rhs, "")?)
     }
 
-    fn build_int_select(
+    /// The value as i32, or `limit` where it is larger than that.
+    pub fn build_saturated_i32(
+        &self,
+        value: &BasicValueEnum<'ctx>,
+        limit: u64,
+    ) -> Result<IntValue<'ctx>, ASTLoweringError> {
+        let mut value = self.try_into_int(value)?;
+        if value.get_type().get_bit_width() < 32 {
+            value = self.int_as_i32(value)?;
+        }
+        let limit = value.get_type().const_int(limit, false);
+        let in_range = self.builder.borrow_mut().build_int_compare(
+            IntPredicate::ULT,
+            value,
+            limit,
+            "",
+        )?;
+        self.int_as_i32(self.build_int_select(in_range, value, limit)?)
+    }
+
+    pub fn build_int_select(
         &self,
         cond: IntValue<'ctx>,
         then: IntValue<'ctx>,
diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index f02e059..cd2a010 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -689,8 +689,7 @@ impl<'a> Yul2IRContext<'a> {
                 // signextend(b, x) extends a smaller signed integer x to 256 bits while preserving its sign bit.
                 // The bits before the specified byte count (b) are extended according to the sign of the most significant bit.
                 check_args_count(&instr, &args, 2)?;
-                let b = self.try_into_int(args.first().unwrap())?;
-                let b = self.int_as_i32(b)?;
+                let b = self.build_saturated_i32(args.first().unwrap(), 32)?;
                 let x = self.try_into_u256(args.get(1).unwrap())?;
                 let x_ptr = self.get_value_pointer(x)?;
                 let tmp_result = self.fast_alloca(self.u256_type(), "")?;
@@ -1109,13 +1108,12 @@ impl<'a> Yul2IRContext<'a> {
             }
             YulInstructionName::Byte => {
                 check_args_count(&instr, &args, 2)?;
-                let nth_byte_i32 =
-                    self.try_into_i32_value(args.first().unwrap(), args_exprs.first().unwrap())?;
+                let nth_byte = self.build_saturated_i32(args.first().unwrap(), 32)?;
                 let value = self.try_into_int(args.get(1).unwrap())?;
                 let value = self.int_as_u256(value)?;
                 let shift_amount_tmp = self.builder.borrow_mut().build_int_sub(
                     self.i32_type().const_int(31, false),
-                    nth_byte_i32,
+                    nth_byte,
                     "shift_amount",
                 )?;
                 let shift_count = self.builder.borrow_mut().build_int_mul(
@@ -1123,6 +1121,15 @@ impl<'a> Yul2IRContext<'a> {
                     shift_amount_tmp,
                     "shift_amount_mul",
                 )?;
+                // a byte beyond the word is zero, and the shift must stay below the width of the word
+                let in_range = self.builder.borrow_mut().build_int_compare(
+                    IntPredicate::ULT,
+                    nth_byte,
+                    self.i32_type().const_int(32, false),
+                    "",
+                )?;
+                let shift_count =
+                    self.build_int_select(in_range, shift_count, self.i32_type().const_zero())?;
                 let (value, shift_count) = self.unify_ints(value, shift_count)?;
                 let shifted_value = self.builder.borrow_mut().build_right_shift(
                     value,
@@ -1131,14 +1138,13 @@ impl<'a> Yul2IRContext<'a> {
                     "shifted_value",
                 )?;
                 // get last byte
+                let last_byte = self.builder.borrow_mut().build_and(
+                    shifted_value,
+                    self.u256_type().const_int(0xff, false),
+                    "byte_result",
+                )?;
                 let result = self
-                    .builder
-                    .borrow_mut()
-                    .build_and(
-                        shifted_value,
-                        self.u256_type().const_int(0xff, false),
-                        "byte_result",
-                    )?
+                    .build_int_select(in_range, last_byte, self.u256_type().const_zero())?
                     .into();
                 Ok(YulLowLevelValue {
                     value_type: YulLowLevelValueType::U256,
@@ -1154,7 +1160,7 @@ impl<'a> Yul2IRContext<'a> {
                 // so we use bytes32 version
                 if self.is_bytes32_value(value) {
                     // Ensure shift is i32
-                    let shift_i32 = self.try_into_i32(shift)?;
+                    let shift_i32 = self.build_saturated_i32(shift, 256)?;
                     let value = self.try_into_bytes32_pointer(value)?;
                     let result_ptr = self.fast_alloca(self.bytes32_type(), "shl_result")?;
                     self.build_void_call(
@@ -1170,7 +1176,7 @@ impl<'a> Yul2IRContext<'a> {
                 // because llvm shl not work well for shift>=256, so we use c wrapper
                 let value = self.try_into_u256(value)?;
                 let value_ptr = self.get_value_pointer(value)?;
-                let shift = self.try_into_i32(shift)?;
+                let shift = self.build_saturated_i32(shift, 256)?;
                 let ret_ty = self.u256_type();
                 let result_ptr = self.fast_alloca(ret_ty, "shl_result")?;
                 self.build_void_call(
@@ -1187,10 +1193,10 @@ impl<'a> Yul2IRContext<'a> {
             YulInstructionName::Sar => {
                 // Signed Arithmetic Right Shift
                 check_args_count(&instr, &args, 2)?;
-                let (arg0, arg1) = self.unify_to_u256(
-                    self.try_into_int(args.first().unwrap())?,
-                    self.try_into_int(args.get(1).unwrap())?,
-                )?;
+                // shifting by more than the width fills the word with the sign, as shifting by 255 does
+                let shift = self.build_saturated_i32(args.first().unwrap(), 255)?;
+                let (arg0, arg1) =
+                    self.unify_to_u256(shift, self.try_into_int(args.get(1).unwrap())?)?;
                 let result = self
                     .builder
                     .borrow_mut()
@@ -1215,7 +1221,7 @@ impl<'a> Yul2IRContext<'a> {
                 if self.is_bytes32_value(value) {
                     let value = self.try_into_bytes32_pointer(value)?;
                     // Ensure shift is i32
-                    let shift_i32 = self.try_into_i32(shift)?;
+                    let shift_i32 = self.build_saturated_i32(shift, 256)?;
                     let result_ptr = self.fast_alloca(self.bytes32_type(), "shr_result")?;
                     self.build_void_call(
                         "wrapper_bytes32_shr",
@@ -1228,7 +1234,7 @@ impl<'a> Yul2IRContext<'a> {
                 }
                 let value = self.try_into_u256(value)?;
                 let value_ptr = self.get_value_pointer(value)?;
-                let shift = self.try_into_i32(shift)?;
+                let shift = self.build_saturated_i32(shift, 256)?;
                 let ret_ty = self.u256_type();
                 let result_ptr = self.fast_alloca(ret_ty, "shr_result")?;
                 self.build_void_call(
-- 
2.43.0


From a65f7363172552197643eb69e20ed1259eb00718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:00 +0000
Subject: [PATCH 22/39] fix: compare signed operands as 256-bit words

---
 src/yul2ir/instruction.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index cd2a010..ad5260d 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -291,10 +291,20 @@ impl<'a> Yul2IRContext<'a> {
                         // else return negative result.
                         // Optimize by directly calling a specialized wrapper
                         if let Ok(result) = self.build_call("wrapper_calldata_size_minus_4", &[]) {
+                            // the difference is negative for short calldata
+                            let result = self
+                                .builder
+                                .borrow_mut()
+                                .build_int_s_extend(
+                                    result.into_int_value(),
+                                    self.u256_type(),
+                                    "",
+                                )
+                                .unwrap();
                             return (
                                 Some(YulLowLevelValue {
-                                    value_type: YulLowLevelValueType::I32,
-                                    value: result,
+                                    value_type: YulLowLevelValueType::U256,
+                                    value: result.into(),
                                 }),
                                 None,
                             );
@@ -899,7 +909,8 @@ impl<'a> Yul2IRContext<'a> {
 
                 let arg0 = self.try_into_int(arg0)?;
                 let arg1 = self.try_into_int(arg1)?;
-                let (arg0, arg1) = self.unify_ints(arg0, arg1)?;
+                // the sign is that of the 256-bit word, whatever the width the value is held in
+                let (arg0, arg1) = self.unify_to_u256(arg0, arg1)?;
                 // For u256 == u256 comparison, we need to convert the result from i1 to i32 type with zero extension,
                 // otherwise the higher bits will be incorrect
                 let cmp_result_i1 = self.builder.borrow_mut().build_int_compare(
@@ -934,7 +945,8 @@ impl<'a> Yul2IRContext<'a> {
 
                 let arg0 = self.try_into_int(arg0)?;
                 let arg1 = self.try_into_int(arg1)?;
-                let (arg0, arg1) = self.unify_ints(arg0, arg1)?;
+                // the sign is that of the 256-bit word, whatever the width the value is held in
+                let (arg0, arg1) = self.unify_to_u256(arg0, arg1)?;
                 // For u256 == u256 comparison, we need to convert the result from i1 to i32 type with zero extension, otherwise the higher bits will be incorrect
                 let cmp_result_i1 = self.builder.borrow_mut().build_int_compare(
                     IntPredicate::SGT,
-- 
2.43.0


From 55337eff4d2e54951f081245c8132bd9b0e25d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:26 +0000
Subject: [PATCH 23/39] fix: compare a switch condition with its cases as a
 whole word

---
 src/yul2ir/transform.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 203ba31..249b9a4 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -93,15 +93,11 @@ impl<'a> Yul2IRContext<'a> {
         let cur_func = self.current_function.borrow().clone().unwrap();
         let cur_func_value = *cur_func.clone();
 
-        // For switch condition, we ideally want the type to match case values (typically u256)
+        // The condition is compared with the case values as a whole word: in a narrower type,
+        // a case value that does not fit would be cut and match another value.
         let cond_value =
-            self.walk_expr_with_type(yul_func_name, &switch.condition, ExpectedType::I32)?;
-        let cond_value = cond_value.get_value();
-        let cond_value = if cond_value.is_int_value() {
-            cond_value.into_int_value()
-        } else {
-            self.try_into_u256(&cond_value)?
-        };
+            self.walk_expr_with_type(yul_func_name, &switch.condition, ExpectedType::Untyped)?;
+        let cond_value = self.try_into_u256(&cond_value.get_value())?;
         let cond_value_ty = cond_value.get_type();
 
         // Determine the expected type for case values based on the condition value type
@@ -167,6 +163,9 @@ impl<'a> Yul2IRContext<'a> {
                 let otherwise_block = self
                     .llvm_context
                     .append_basic_block(cur_func_value, "switch_otherwise");
+                self.builder
+                    .borrow_mut()
+                    .build_unconditional_branch(otherwise_block);
                 self.builder.borrow_mut().position_at_end(otherwise_block);
                 self.walk_block(yul_func_name, &default.body);
                 self.builder
-- 
2.43.0


From be2c9a6305ca6526fe3ed4d9abce5aa937380732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:26 +0000
Subject: [PATCH 24/39] fix: a for condition is not cut to 32 bits

---
 src/yul2ir/transform.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 249b9a4..f3cb755 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -226,9 +226,9 @@ impl<'a> Yul2IRContext<'a> {
             .build_unconditional_branch(cond_block);
 
         self.builder.borrow_mut().position_at_end(cond_block);
-        // For conditions, we prefer boolean (i32) results
+        // As in walk_if: asking for an i32 would cut a wider word before it is compared with zero
         let cond_value =
-            self.walk_expr_with_type(yul_func_name, &r#for.condition, ExpectedType::I32)?;
+            self.walk_expr_with_type(yul_func_name, &r#for.condition, ExpectedType::Bool)?;
         let cond_value = cond_value.get_value();
         let cond_value = if cond_value.is_int_value() {
             cond_value.into_int_value()
-- 
2.43.0


From 6952909d79a10d6d6c6786ffd098ff786c8d9b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:26 +0000
Subject: [PATCH 25/39] fix: the body of an if is a scope of its own

---
 src/yul2ir/transform.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index f3cb755..e03a65f 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -297,6 +297,7 @@ impl<'a> Yul2IRContext<'a> {
             self.i32_type().const_zero(),
             "nop",
         )?;
+        let _scope_guard = ScopeGuard::new(self);
         for stmt in &r#if.body.statements {
             self.walk_stmt(yul_func_name, stmt)?;
             unreachableflag = self.is_unreachable_node(stmt);
-- 
2.43.0


From 67fbf1d0d875994b6df39f0ded5f91b50d2d905e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:26 +0000
Subject: [PATCH 26/39] fix: evaluate the arguments of a call from the last to
 the first

---
 src/yul2ir/instruction.rs | 6 ++++--
 src/yul2ir/transform.rs   | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index ad5260d..5a9cad8 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -523,10 +523,11 @@ impl<'a> Yul2IRContext<'a> {
         args_exprs: &[Expression],
         arg_expected_types: &[ExpectedType],
     ) -> Vec<YulLowLevelValue<'a>> {
-        // Evaluate each argument with its expected type
-        let args: Vec<YulLowLevelValue<'a>> = args_exprs
+        // Evaluate each argument with its expected type, the last one first as Yul requires
+        let mut args: Vec<YulLowLevelValue<'a>> = args_exprs
             .iter()
             .enumerate()
+            .rev()
             .map(|(i, arg)| {
                 let arg_expected_type = if i < arg_expected_types.len() {
                     arg_expected_types[i]
@@ -537,6 +538,7 @@ impl<'a> Yul2IRContext<'a> {
                     .unwrap()
             })
             .collect();
+        args.reverse();
         args
     }
 
diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index e03a65f..9d9c8ee 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -881,8 +881,9 @@ impl<'a> Yul2IRContext<'a> {
             })?
             .clone();
 
+        // Yul evaluates the arguments of a call from the last to the first
         let mut call_args = vec![];
-        for (i, arg) in func_call.arguments.iter().enumerate() {
+        for (i, arg) in func_call.arguments.iter().enumerate().rev() {
             // Try to get the expected parameter type from function declaration
             let expected_param_type =
                 if let Some(func_decl) = self.current_func_decls.borrow().get(&func_name) {
@@ -910,6 +911,7 @@ impl<'a> Yul2IRContext<'a> {
                 e => return e,
             }
         }
+        call_args.reverse();
 
         let func_def = self.current_func_decls.borrow().get(&func_name).unwrap();
 
-- 
2.43.0


From c6a64311e253f543da6e7b696e95e500f5cc9792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:26 +0000
Subject: [PATCH 27/39] fix: results and variables without a value start as
 zero

---
 src/yul2ir/transform.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 9d9c8ee..684fc4a 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -603,6 +603,12 @@ impl<'a> Yul2IRContext<'a> {
                 .borrow_mut()
                 .build_store(llvm_var, init_val)
                 .unwrap();
+        } else {
+            // a variable declared without a value is zero
+            self.builder
+                .borrow_mut()
+                .build_store(llvm_var, ty.const_zero())
+                .unwrap();
         }
         self.ok_result()
     }
@@ -729,7 +735,7 @@ impl<'a> Yul2IRContext<'a> {
                     };
                     item_value
                 }
-                None => self.default_primitive_type().const_zero(),
+                None => new_var_ty.const_zero(),
             };
             // let item = self.try_cast(item, new_var_ty)?;
             self.builder.borrow_mut().build_store(new_var, item);
@@ -1796,7 +1802,15 @@ impl<'a> Yul2IRContext<'a> {
                     )
                 };
 
-            // TODO: Set initial value for the return variable
+            // A return variable is zero until something is assigned to it
+            let ret_var_ty = if ret_var_low_level_value_type == YulLowLevelValueType::Bytes32 {
+                self.bytes32_type().as_basic_type_enum()
+            } else {
+                ret_ty
+            };
+            self.builder
+                .borrow_mut()
+                .build_store(ret_var_pointer, ret_var_ty.const_zero())?;
             self.set_var(
                 ret_name,
                 ret_ty,
-- 
2.43.0


From 880ce6651a5a6edda65448c163360b6bf94c4545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:26 +0000
Subject: [PATCH 28/39] fix: a variable that is assigned again holds a whole
 word

---
 src/yul2ir/transform.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 684fc4a..bf87686 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -513,6 +513,23 @@ impl<'a> Yul2IRContext<'a> {
             None => None,
         };
 
+        // The initial value may have a narrower integer type than a word. The variable can only
+        // keep that type when nothing else is assigned to it.
+        let init_val_low_level = match init_val_low_level {
+            Some(val)
+                if val.get_value().is_int_value()
+                    && self
+                        .get_variable_usage(yul_func_name, &name)
+                        .map_or(true, |usage| usage.writes > 1) =>
+            {
+                Some(YulLowLevelValue {
+                    value_type: YulLowLevelValueType::U256,
+                    value: self.try_into_u256(&val.get_value())?.into(),
+                })
+            }
+            val => val,
+        };
+
         // If the right-hand value is bytes32*, declare a bytes32* variable and copy the value
         if init_val_low_level.is_some()
             && init_val_low_level.unwrap().value_type == YulLowLevelValueType::Bytes32Pointer
-- 
2.43.0


From b4bb1430c130545cdca319901ce5cc7dbc202d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:26 +0000
Subject: [PATCH 29/39] fix: offsets into calldata and returned data are not
 cut to 32 bits

---
 src/yul2ir/instruction.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 5a9cad8..c7d0882 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -104,15 +104,16 @@ impl<'a> Yul2IRContext<'a> {
                 vec![ExpectedType::I32, ExpectedType::I32, ExpectedType::I32]
             }
             YulInstructionName::MStore8 => vec![ExpectedType::I32, ExpectedType::I32],
-            YulInstructionName::CallDataLoad => vec![ExpectedType::I32],
+            // The offset into the calldata or the returned data may be any word
+            YulInstructionName::CallDataLoad => vec![ExpectedType::Untyped],
             YulInstructionName::CallDataCopy => {
-                vec![ExpectedType::I32, ExpectedType::I32, ExpectedType::I32]
+                vec![ExpectedType::I32, ExpectedType::Untyped, ExpectedType::I32]
             }
             YulInstructionName::CodeCopy => {
                 vec![ExpectedType::I32, ExpectedType::I32, ExpectedType::I32]
             }
             YulInstructionName::ReturnDataCopy => {
-                vec![ExpectedType::I32, ExpectedType::I32, ExpectedType::I32]
+                vec![ExpectedType::I32, ExpectedType::Untyped, ExpectedType::I32]
             }
             YulInstructionName::Return => vec![ExpectedType::I32, ExpectedType::I32],
             YulInstructionName::Revert => vec![ExpectedType::I32, ExpectedType::I32],
@@ -1726,8 +1727,7 @@ impl<'a> Yul2IRContext<'a> {
             }
             YulInstructionName::CallDataLoad => {
                 check_args_count(&instr, &args, 1)?;
-                let offset =
-                    self.try_into_i32_value(args.first().unwrap(), args_exprs.first().unwrap())?;
+                let offset = self.build_saturated_i32(args.first().unwrap(), u32::MAX.into())?;
 
                 let ret_ty = self.bytes32_type();
                 let tmp_result = self.fast_alloca(ret_ty, "")?;
@@ -1765,7 +1765,7 @@ impl<'a> Yul2IRContext<'a> {
                     self.try_into_i32_value(args.first().unwrap(), args_exprs.first().unwrap())?;
 
                 let calldata_offset =
-                    self.try_into_i32_value(args.get(1).unwrap(), args_exprs.get(1).unwrap())?;
+                    self.build_saturated_i32(args.get(1).unwrap(), u32::MAX.into())?;
 
                 let len =
                     self.try_into_i32_value(args.get(2).unwrap(), args_exprs.get(2).unwrap())?;
@@ -1880,7 +1880,7 @@ impl<'a> Yul2IRContext<'a> {
                     self.try_into_i32_value(args.first().unwrap(), args_exprs.first().unwrap())?;
 
                 let return_data_offset =
-                    self.try_into_i32_value(args.get(1).unwrap(), args_exprs.get(1).unwrap())?;
+                    self.build_saturated_i32(args.get(1).unwrap(), u32::MAX.into())?;
 
                 let len =
                     self.try_into_i32_value(args.get(2).unwrap(), args_exprs.get(2).unwrap())?;
-- 
2.43.0


From 0c01c0da2287c5b1063f533b72e991a1e36b5bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:26 +0000
Subject: [PATCH 30/39] fix: the gas of a call and the number of a block are
 not cut to 64 bits

---
 src/yul2ir/context.rs     | 22 ++++++++++++++++++++++
 src/yul2ir/instruction.rs | 12 ++++++------
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/yul2ir/context.rs b/src/yul2ir/context.rs
index 45c3d63..d27399d 100644
--- a/src/yul2ir/context.rs
+++ b/src/yul2ir/context.rs
@@ -1099,6 +1099,28 @@ impl<'ctx> Yul2IRContext<'ctx> {
         self.int_as_i32(self.build_int_select(in_range, value, limit)?)
     }
 
+    /// The value as i64, or the largest unsigned one where it is larger than that.
+    pub fn build_saturated_i64(
+        &self,
+        value: &BasicValueEnum<'ctx>,
+    ) -> Result<IntValue<'ctx>, ASTLoweringError> {
+        let value = self.try_into_int(value)?;
+        if value.get_type().get_bit_width() <= 64 {
+            return self.int_cast(value, self.i64_type());
+        }
+        let limit = value.get_type().const_int(u64::MAX, false);
+        let in_range = self.builder.borrow_mut().build_int_compare(
+            IntPredicate::ULT,
+            value,
+            limit,
+            "",
+        )?;
+        self.int_cast(
+            self.build_int_select(in_range, value, limit)?,
+            self.i64_type(),
+        )
+    }
+
     pub fn build_int_select(
         &self,
         cond: IntValue<'ctx>,
diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index c7d0882..2481aa0 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -134,7 +134,7 @@ impl<'a> Yul2IRContext<'a> {
 
             // For contract calls, use appropriate types for gas, address, value, and memory params
             YulInstructionName::Call => vec![
-                ExpectedType::I64,     // gas
+                ExpectedType::Untyped, // gas
                 ExpectedType::Bytes32, // address
                 ExpectedType::U256,    // value
                 ExpectedType::I32,     // in_offset
@@ -143,7 +143,7 @@ impl<'a> Yul2IRContext<'a> {
                 ExpectedType::I32,     // out_size
             ],
             YulInstructionName::DelegateCall | YulInstructionName::StaticCall => vec![
-                ExpectedType::I64,     // gas
+                ExpectedType::Untyped, // gas
                 ExpectedType::Bytes32, // address
                 ExpectedType::I32,     // in_offset
                 ExpectedType::I32,     // in_size
@@ -2231,7 +2231,7 @@ impl<'a> Yul2IRContext<'a> {
             YulInstructionName::Call => {
                 check_args_count(&instr, &args, 7)?;
                 let gas: &BasicValueEnum<'a> = args.first().unwrap();
-                let gas = self.try_into_i64(gas)?;
+                let gas = self.build_saturated_i64(gas)?;
 
                 let callee_addr: &BasicValueEnum<'a> = args.get(1).unwrap();
                 let callee_addr = self.try_into_bytes32_pointer(callee_addr)?;
@@ -2273,7 +2273,7 @@ impl<'a> Yul2IRContext<'a> {
             YulInstructionName::DelegateCall => {
                 check_args_count(&instr, &args, 6)?;
                 let gas: &BasicValueEnum<'a> = args.first().unwrap();
-                let gas = self.try_into_i64(gas)?;
+                let gas = self.build_saturated_i64(gas)?;
 
                 let callee_addr: &BasicValueEnum<'a> = args.get(1).unwrap();
                 let callee_addr = self.try_into_bytes32_pointer(callee_addr)?;
@@ -2307,7 +2307,7 @@ impl<'a> Yul2IRContext<'a> {
             YulInstructionName::StaticCall => {
                 check_args_count(&instr, &args, 6)?;
                 let gas: &BasicValueEnum<'a> = args.first().unwrap();
-                let gas = self.try_into_i64(gas)?;
+                let gas = self.build_saturated_i64(gas)?;
 
                 let callee_addr: &BasicValueEnum<'a> = args.get(1).unwrap();
                 let callee_addr = self.try_into_bytes32_pointer(callee_addr)?;
@@ -2398,7 +2398,7 @@ impl<'a> Yul2IRContext<'a> {
             YulInstructionName::BlockHash => {
                 check_args_count(&instr, &args, 1)?;
                 let block_number: &BasicValueEnum<'a> = args.first().unwrap();
-                let block_number = self.try_into_i64(block_number)?;
+                let block_number = self.build_saturated_i64(block_number)?;
 
                 let ret_ty = self.bytes32_type();
                 let block_hash_ptr: PointerValue<'a> = self.fast_alloca(ret_ty, "")?;
-- 
2.43.0


From b9fcd54f0b9109a72e996f19bb85a4a5adf422af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:26 +0000
Subject: [PATCH 31/39] fix: a function named init does not replace the code of
 its object

---
 src/yul2ir/transform.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index bf87686..8c97c86 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -1691,7 +1691,8 @@ impl<'a> Yul2IRContext<'a> {
     fn transform_init_func(&self, object: &Object) -> (CompileFunctionResult<'a>, String) {
         let module_name = self.current_module_name.borrow().clone();
         let contract_name = self.current_contract_name.borrow().clone();
-        let qualifier_func_name = format!("{}.{}.init", module_name, contract_name,);
+        // An identifier cannot begin with a dot, so no function of the object has this name
+        let qualifier_func_name = format!("{}.{}..init", module_name, contract_name,);
 
         let params_meta_types: Vec<BasicMetadataTypeEnum<'a>> = vec![];
         let func_ty: FunctionType<'a> = self
-- 
2.43.0


From 4c8157613c16357f7053f734e109c5430f91e40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:11 +0000
Subject: [PATCH 32/39] fix: data items are embedded without a length in front
 of them

---
 src/yul2ir/transform.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 8c97c86..ff2871f 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -1524,20 +1524,19 @@ impl<'a> Yul2IRContext<'a> {
                                 if hex_literal.len() % 2 != 0 {
                                     bytes.push('0');
                                 }
+                                // Only contract code is prefixed by its length
                                 let data_bytes = hex::decode(bytes).unwrap();
-                                let data_bytes_with_length_prefix =
-                                    merge_sub_wasm_with_length_prefix(&data_bytes);
 
                                 let data_segment_qualified_name =
                                     &format!("{}.{}", object.name, data_segment_name);
                                 let global_var = self.add_global_constant_bytes32(
-                                    &data_bytes_with_length_prefix,
+                                    &data_bytes,
                                     data_segment_qualified_name,
                                 );
 
                                 self.global_bytes_lengths.borrow_mut().insert(
                                     data_segment_qualified_name.to_string(),
-                                    data_bytes_with_length_prefix.len(),
+                                    data_bytes.len(),
                                 );
                                 self.global_bytes_values
                                     .borrow_mut()
@@ -1545,19 +1544,17 @@ impl<'a> Yul2IRContext<'a> {
                             }
                             ast::DataLiteral::StringLiteral(string_literal) => {
                                 let data_bytes = string_literal.as_bytes();
-                                let data_bytes_with_length_prefix =
-                                    merge_sub_wasm_with_length_prefix(data_bytes);
 
                                 let data_segment_qualified_name =
                                     &format!("{}.{}", object.name, data_segment_name);
                                 let global_var = self.add_global_constant_bytes32(
-                                    &data_bytes_with_length_prefix,
+                                    data_bytes,
                                     data_segment_qualified_name,
                                 );
 
                                 self.global_bytes_lengths.borrow_mut().insert(
                                     data_segment_qualified_name.to_string(),
-                                    data_bytes_with_length_prefix.len(),
+                                    data_bytes.len(),
                                 );
                                 self.global_bytes_values
                                     .borrow_mut()
-- 
2.43.0


From 0e49e2129b22c6dc6488ec19e21582fa0c25969f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:30 +0000
Subject: [PATCH 33/39] fix: signed division by a power of two is compiled

---
 src/yul2ir/context.rs | 45 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/yul2ir/context.rs b/src/yul2ir/context.rs
index d27399d..418b006 100644
--- a/src/yul2ir/context.rs
+++ b/src/yul2ir/context.rs
@@ -1046,28 +1046,51 @@ impl<'ctx> Yul2IRContext<'ctx> {
         let zero = ty.const_zero();
         let one = ty.const_int(1, false);
         let by_zero = self.is_int_equal(rhs, zero)?;
+        let mut dividend = lhs;
         let mut divisor = self.build_int_select(by_zero, one, rhs)?;
-        let mut by_minus_one = None;
+        let mut negative = None;
         if signed {
-            let cond = self.is_int_equal(rhs, ty.const_all_ones())?;
-            divisor = self.build_int_select(cond, one, divisor)?;
-            by_minus_one = Some(cond);
+            // Divide the magnitudes: LLVM fails to lower the signed division of a wide integer by a power of two.
+            let (lhs_negative, lhs_magnitude) = self.build_magnitude(lhs)?;
+            let (rhs_negative, rhs_magnitude) = self.build_magnitude(divisor)?;
+            dividend = lhs_magnitude;
+            divisor = rhs_magnitude;
+            negative = Some(if remainder {
+                lhs_negative
+            } else {
+                self.builder
+                    .borrow_mut()
+                    .build_xor(lhs_negative, rhs_negative, "")?
+            });
         }
         let builder = self.builder.borrow_mut();
         let mut result = match (signed, remainder) {
-            (false, false) => builder.build_int_unsigned_div(lhs, divisor, "div_result")?,
-            (false, true) => builder.build_int_unsigned_rem(lhs, divisor, "mod_result")?,
-            (true, false) => builder.build_int_signed_div(lhs, divisor, "sdiv_result")?,
-            (true, true) => builder.build_int_signed_rem(lhs, divisor, "smod_result")?,
+            (false, false) => builder.build_int_unsigned_div(dividend, divisor, "div_result")?,
+            (false, true) => builder.build_int_unsigned_rem(dividend, divisor, "mod_result")?,
+            (true, false) => builder.build_int_unsigned_div(dividend, divisor, "sdiv_result")?,
+            (true, true) => builder.build_int_unsigned_rem(dividend, divisor, "smod_result")?,
         };
         drop(builder);
-        if let (Some(by_minus_one), false) = (by_minus_one, remainder) {
-            let negated = self.builder.borrow_mut().build_int_sub(zero, lhs, "")?;
-            result = self.build_int_select(by_minus_one, negated, result)?;
+        if let Some(negative) = negative {
+            let negated = self.builder.borrow_mut().build_int_sub(zero, result, "")?;
+            result = self.build_int_select(negative, negated, result)?;
         }
         self.build_int_select(by_zero, zero, result)
     }
 
+    /// Whether the value is negative, and its magnitude as an unsigned integer.
+    fn build_magnitude(
+        &self,
+        value: IntValue<'ctx>,
+    ) -> Result<(IntValue<'ctx>, IntValue<'ctx>), ASTLoweringError> {
+        let zero = value.get_type().const_zero();
+        let builder = self.builder.borrow_mut();
+        let negative = builder.build_int_compare(IntPredicate::SLT, value, zero, "")?;
+        let negated = builder.build_int_sub(zero, value, "")?;
+        drop(builder);
+        Ok((negative, self.build_int_select(negative, negated, value)?))
+    }
+
     fn is_int_equal(
         &self,
         lhs: IntValue<'ctx>,
-- 
2.43.0


From f017d9795be070a5364fda18389ee4a5010d34fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:48 +0000
Subject: [PATCH 34/39] fix: decoding an address from calldata rejects words
 that are not addresses

---
 src/yul2ir/instruction.rs | 17 -----------------
 1 file changed, 17 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 2481aa0..3f5a52c 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -369,23 +369,6 @@ impl<'a> Yul2IRContext<'a> {
             }
         }
 
-        //  Optimize iszero(eq(value, and(value, sub(shl(160, 1), 1)))) by checking if the first 12 bytes of u256/bytes32 are zero
-
-        if yul_func_name.contains("abi_decode_address")
-            || yul_func_name.contains("abi_decode_t_address")
-        {
-            // TODO: Since abi_decode_address only uses the last 20 bytes of the address, we can simply return false for the iszero check
-            if let YulInstructionName::IsZero = instr {
-                return (
-                    Some(YulLowLevelValue {
-                        value_type: YulLowLevelValueType::I32,
-                        value: self.i32_type().const_zero().into(),
-                    }),
-                    None,
-                );
-            }
-        }
-
         // TODO: and(addr, sub(shl(160, 1), 1)) can be optimized to clear the first 12 bytes of the address
         // TODO: However, since only the last 20 bytes of the address are used, we can implement a special optimization
         if self.opts.enable_all_optimizers {
-- 
2.43.0


From 6ec301c4a81111c4c48165f2f2b506d3c3c47395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:48 +0000
Subject: [PATCH 35/39] fix: immutables whose long names begin alike are kept
 apart

---
 src/yul2ir/instruction.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 3f5a52c..16dc2af 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -1507,7 +1507,8 @@ impl<'a> Yul2IRContext<'a> {
                     .expect("immutable name is empty");
                 let key_name = format!("{}_{}", "immutable", name);
                 let mut data = key_name.as_bytes().to_vec();
-                data.resize(32, 0u8);
+                // Names that need more than a word are hashed as they are
+                data.resize(data.len().max(32), 0u8);
                 keccak_hash::keccak256(&mut data);
                 let hash = &data[0..32];
                 let hash_hex = hex::encode(hash);
@@ -1590,7 +1591,8 @@ impl<'a> Yul2IRContext<'a> {
                     .expect("immutable name is empty");
                 let key_name = format!("{}_{}", "immutable", name);
                 let mut data = key_name.as_bytes().to_vec();
-                data.resize(32, 0u8);
+                // Names that need more than a word are hashed as they are
+                data.resize(data.len().max(32), 0u8);
                 keccak_hash::keccak256(&mut data);
                 let hash = &data[0..32];
                 let hash_hex = hex::encode(hash);
-- 
2.43.0


From 2fd77e45851e0ad1ecc54ef3744118dc2dbbbca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:24 +0000
Subject: [PATCH 36/39] fix: a variable for the address of a library is kept in
 code outside functions

A variable that was only read outside of any function, or assigned again
later, was dropped, and compiling its uses failed.
---
 src/yul2ir/transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index ff2871f..7f6a963 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -492,7 +492,7 @@ impl<'a> Yul2IRContext<'a> {
                 .is_some()
             {
                 let usage_info = self.get_variable_usage(yul_func_name, &name);
-                if usage_info.is_none() || usage_info.unwrap().reads == 0 {
+                if usage_info.map_or(false, |usage| usage.reads == 0 && usage.writes <= 1) {
                     // the variable not used, so we can optimize this variable declaration
                     return self.ok_result();
                 }
-- 
2.43.0


From 8aca4c7c0b993e7321ec6c667de96328f5da6809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:00 +0000
Subject: [PATCH 37/39] fix: the address of a created contract is clean

The host writes the low 20 bytes of the result only; the other 12 were
whatever the stack held.
---
 stdlib/chain.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 7314ef6..caf647c 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -596,6 +596,9 @@ void wrapper_create(uint256_t *value, int32_t code_evm_mem, int32_t code_length,
   uint32_t calldata_length = code_length - 4 - wasm_code_length;
   uint8_t *calldata_mem = code_mem + 4 + wasm_code_length;
 
+  // The host writes the low 20 bytes only
+  __memset(*result, 0, sizeof(bytes32));
+
   // Use ABI format (4 bytes wasm length + wasm code)
   int32_t ret_code =
       createContract((ADDRESS_UINT)&value_bytes, (ADDRESS_UINT)code_mem,
@@ -627,6 +630,9 @@ void wrapper_create2(uint256_t *value, int32_t code_evm_mem,
   uint8_t salt_bytes[32];
   u256_to_big_endian(salt_u256, salt_bytes);
 
+  // The host writes the low 20 bytes only
+  __memset(*result, 0, sizeof(bytes32));
+
   // Use ABI format (4 bytes wasm length + wasm code)
   int32_t ret_code = createContract(
       (ADDRESS_UINT)&value_bytes, (ADDRESS_UINT)code_mem, wasm_code_length + 4,
-- 
2.43.0


From 1724d5a173c351cab352d57a4e037b624dcfc755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:19 +0000
Subject: [PATCH 38/39] fix: with all optimisations the free memory pointer may
 be set to a constant

---
 src/yul2ir/instruction.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 16dc2af..1fe4646 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -316,7 +316,12 @@ impl<'a> Yul2IRContext<'a> {
         }
 
         // optimize for mstore(offset, constant_value)
-        if matches!(instr, YulInstructionName::MStore) && args_exprs.len() == 2 {
+        // (the free memory pointer may be kept outside of the memory, see below)
+        if matches!(instr, YulInstructionName::MStore)
+            && args_exprs.len() == 2
+            && !(self.opts.enable_all_optimizers
+                && self.matches_constant_literal(&args_exprs[0], U256::from(64)))
+        {
             let offset = &args_exprs[0].clone();
             let value = &args_exprs[1].clone();
 
-- 
2.43.0


From 86df76aae6e4cd76bf0054af8a978f164fed012d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:27 +0000
Subject: [PATCH 39/39] fix: with all optimisations addresses are still masked

---
 src/yul2ir/instruction.rs | 23 -----------------------
 1 file changed, 23 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 1fe4646..90bed5b 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -374,29 +374,6 @@ impl<'a> Yul2IRContext<'a> {
             }
         }
 
-        // TODO: and(addr, sub(shl(160, 1), 1)) can be optimized to clear the first 12 bytes of the address
-        // TODO: However, since only the last 20 bytes of the address are used, we can implement a special optimization
-        if self.opts.enable_all_optimizers {
-            if let YulInstructionName::And = instr {
-                let lhs = args_exprs.first().unwrap();
-                let rhs = args_exprs.get(1).unwrap();
-
-                // Use simplified address mask pattern matching
-                if let Some(Expression::Identifier(addr_iden)) = self.matches_address_mask_pattern(
-                    &Expression::FunctionCall(Box::new(FunctionCall {
-                        id: Identifier {
-                            name: "and".to_string(),
-                        },
-                        arguments: vec![lhs.clone(), rhs.clone()],
-                    })),
-                ) {
-                    // Optimize by directly returning the address since only the last 20 bytes will be used
-                    let result = self.walk_identifier(&addr_iden).unwrap();
-                    return (Some(result), None);
-                }
-            }
-        }
-
         if yul_func_name.contains("abi_decode_address")
             || yul_func_name.contains("abi_decode_t_address")
         {
-- 
2.43.0

