From a4d4d8ec346080ea61a16e069e378d76ef379f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:24 +0000
Subject: [PATCH 01/27] fix: fold shl/shr_s pairs into the sign extension they
 compute

---
 crates/parser/src/optimize.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/parser/src/optimize.rs b/crates/parser/src/optimize.rs
index 80dfa0d..b346234 100644
--- a/crates/parser/src/optimize.rs
+++ b/crates/parser/src/optimize.rs
@@ -105,7 +105,7 @@ fn rewrite(
                 rewrite!(instrs, i, [LocalGet32(local), Const32(c)] => BinOpLocalConst32(op, local, c));
                 rewrite!(instrs, i, [GlobalGet(global)] => BinOpStackGlobal32(op, global));
                 if matches!(op, BinOp::IShrS) {
-                    rewrite!(instrs, i, [BinOpLocalConst32(BinOp::IShl, local, 8), Const32(8)] => [LocalGet32(local), I32Extend8S]);
+                    rewrite!(instrs, i, [BinOpLocalConst32(BinOp::IShl, local, 24), Const32(24)] => [LocalGet32(local), I32Extend8S]);
                     rewrite!(instrs, i, [BinOpLocalConst32(BinOp::IShl, local, 16), Const32(16)] => [LocalGet32(local), I32Extend16S]);
                 }
             }
@@ -126,8 +126,8 @@ fn rewrite(
                 rewrite!(instrs, i, [LocalGet64(local), Const64(c)] => BinOpLocalConst64(op, local, c));
                 rewrite!(instrs, i, [GlobalGet(global)] => BinOpStackGlobal64(op, global));
                 if matches!(op, BinOp::IShrS) {
-                    rewrite!(instrs, i, [BinOpLocalConst64(BinOp::IShl, local, 8), Const64(8)] => [LocalGet64(local), I64Extend8S]);
-                    rewrite!(instrs, i, [BinOpLocalConst64(BinOp::IShl, local, 16), Const64(16)] => [LocalGet64(local), I64Extend16S]);
+                    rewrite!(instrs, i, [BinOpLocalConst64(BinOp::IShl, local, 56), Const64(56)] => [LocalGet64(local), I64Extend8S]);
+                    rewrite!(instrs, i, [BinOpLocalConst64(BinOp::IShl, local, 48), Const64(48)] => [LocalGet64(local), I64Extend16S]);
                     rewrite!(instrs, i, [BinOpLocalConst64(BinOp::IShl, local, 32), Const64(32)] => [LocalGet64(local), I64Extend32S]);
                 }
             }
-- 
2.43.0


From 1a12c1524693e39de155a9fbfb00fa9345eeb3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:24 +0000
Subject: [PATCH 02/27] fix: keep the result of select polymorphic in
 unreachable code

---
 crates/parser/src/visit.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/parser/src/visit.rs b/crates/parser/src/visit.rs
index dae9ff2..d8c57a4 100644
--- a/crates/parser/src/visit.rs
+++ b/crates/parser/src/visit.rs
@@ -434,6 +434,11 @@ impl<'a> wasmparser::VisitOperator<'a> for FunctionBuilder<'_> {
     }
 
     fn visit_select(&mut self) -> Self::Output {
+        let frame_height = self.control_stack.last().map_or(0, |frame| frame.height);
+        if self.is_unreachable() && self.operand_stack.len() < frame_height + 2 {
+            // both values are polymorphic, so the result stays polymorphic as well
+            return self.emit(&[OperandSize::S32], &[], Instruction::Select32);
+        }
         let size = self.operand_stack.iter().rev().nth(1).copied().unwrap_or(OperandSize::S32);
         let instruction = size.choose(Instruction::Select32, Instruction::Select64, Instruction::Select128);
         self.emit(&[size, size, OperandSize::S32], &[size], instruction)
-- 
2.43.0


From 80975478be8a0ef51ff5246f55bb0e8f9fcd266b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:48 +0000
Subject: [PATCH 03/27] fix: initialize reference-typed locals to null

---
 crates/parser/src/conversion.rs | 23 +++++++++++++++++++++--
 crates/parser/src/visit.rs      |  7 +++++--
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/crates/parser/src/conversion.rs b/crates/parser/src/conversion.rs
index 586cac5..3658241 100644
--- a/crates/parser/src/conversion.rs
+++ b/crates/parser/src/conversion.rs
@@ -129,6 +129,7 @@ pub(crate) fn convert_module_code(
     let pos = locals_reader.original_position();
     let signature = metadata.signature(ty_idx)?.clone();
     let mut local_types = signature.params.clone();
+    let mut ref_locals = Vec::new();
 
     for (i, local) in locals_reader.into_iter().enumerate() {
         let local = local?;
@@ -138,6 +139,10 @@ pub(crate) fn convert_module_code(
         let size = crate::visit::OperandSize::from(local.1);
         let count = usize::try_from(local.0)
             .map_err(|_| crate::ParseError::Other("local declaration count is too large".into()))?;
+        if let wasmparser::ValType::Ref(ty) = local.1 {
+            let ty = convert_reftype(ty)?;
+            ref_locals.extend((local_types.len()..local_types.len() + count).map(|idx| (idx, ty)));
+        }
         local_types.reserve(count);
         local_types.extend(core::iter::repeat_n(size, count));
     }
@@ -156,8 +161,22 @@ pub(crate) fn convert_module_code(
         *count = count.checked_add(1).ok_or_else(|| crate::ParseError::Other(error.into()))?;
     }
 
-    let (body, data, validator_allocs, reader_allocs) =
-        process_operators_and_validate(validator, func, local_types, local_addr_map, metadata, ty_idx, reader_allocs)?;
+    // locals are zeroed on entry, but the default value of a reference is null
+    let prologue = ref_locals
+        .into_iter()
+        .flat_map(|(idx, ty)| [Instruction::RefNull(ty), Instruction::LocalSet32(local_addr_map[idx])])
+        .collect();
+
+    let (body, data, validator_allocs, reader_allocs) = process_operators_and_validate(
+        validator,
+        func,
+        local_types,
+        local_addr_map,
+        prologue,
+        metadata,
+        ty_idx,
+        reader_allocs,
+    )?;
     Ok((
         FunctionCode { instructions: body, data, locals: local_counts, uses_local_memory: false },
         validator_allocs,
diff --git a/crates/parser/src/visit.rs b/crates/parser/src/visit.rs
index d8c57a4..848a6e1 100644
--- a/crates/parser/src/visit.rs
+++ b/crates/parser/src/visit.rs
@@ -116,13 +116,15 @@ impl<'a> FunctionBuilder<'a> {
         signature: Signature,
         local_types: Vec<OperandSize>,
         local_addr_map: Vec<u16>,
+        mut prologue: Vec<Instruction>,
         body_size: usize,
     ) -> Self {
+        prologue.reserve(body_size.min(1024));
         Self {
             local_types,
             local_addr_map,
             metadata,
-            instructions: Vec::with_capacity(body_size.min(1024)),
+            instructions: prologue,
             data: FunctionDataBuilder::default(),
             control_stack: alloc::vec![ControlFrame {
                 kind: BlockKind::Function,
@@ -240,6 +242,7 @@ pub(crate) fn process_operators_and_validate(
     body: FunctionBody<'_>,
     local_types: Vec<OperandSize>,
     local_addr_map: Vec<u16>,
+    prologue: Vec<Instruction>,
     metadata: &ModuleMetadata,
     ty_idx: u32,
     allocs: OperatorsReaderAllocations,
@@ -248,7 +251,7 @@ pub(crate) fn process_operators_and_validate(
     let reader = body.get_binary_reader_for_operators()?;
     let mut reader = OperatorsReader::new_with_allocs(reader, allocs);
     let signature = metadata.signature(ty_idx)?.clone();
-    let mut builder = FunctionBuilder::new(metadata, signature, local_types, local_addr_map, body_size);
+    let mut builder = FunctionBuilder::new(metadata, signature, local_types, local_addr_map, prologue, body_size);
 
     while !reader.eof() {
         let position = reader.original_position();
-- 
2.43.0


From b2d2943ac3b64febbbac390f8e3d503dc6427e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:31 +0000
Subject: [PATCH 04/27] fix: return to the caller after a tail call to a host
 function

---
 crates/tinywasm/src/interpreter/executor.rs | 33 +++++++++++++++------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index 739c136..d6c58ef 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -225,9 +225,9 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
             Call(v) => { self.exec_call_direct(*v)?; return Ok(None); }
             CallSelf => { self.exec_call_self()?; return Ok(None); }
             CallIndirect(ty, table) => { self.exec_call_indirect::<false>(*ty, *table)?; return Ok(None); }
-            ReturnCall(v) => { self.exec_return_call_direct(*v)?; return Ok(None); }
+            ReturnCall(v) => { if self.exec_return_call_direct(*v)? { return Ok(Some(())); } return Ok(None); }
             ReturnCallSelf => { self.exec_return_call_self()?; return Ok(None); }
-            ReturnCallIndirect(ty, table) => { self.exec_call_indirect::<true>(*ty, *table)?; return Ok(None); }
+            ReturnCallIndirect(ty, table) => { if self.exec_call_indirect::<true>(*ty, *table)? { return Ok(Some(())); } return Ok(None); }
             Jump(ip) => { self.cf.instr_ptr = *ip as usize; return Ok(None); }
             JumpIfZero32(ip) => if self.exec_jump_zero_32(*ip) { return Ok(None) },
             JumpIfNonZero32(ip) => if self.exec_jump_non_zero_32(*ip) { return Ok(None) },
@@ -976,6 +976,12 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
         Ok(())
     }
 
+    /// Calls a host function in tail position and returns its results to the caller
+    fn exec_return_call_host(&mut self, host_func: Rc<HostFunction>) -> Result<bool, Trap> {
+        self.exec_call_host(host_func)?;
+        Ok(self.exec_return())
+    }
+
     fn exec_call_direct(&mut self, v: u32) -> Result<(), Trap> {
         self.charge_call_fuel(FUEL_COST_CALL_TOTAL);
         let addr = self.module.resolve_func_addr(v);
@@ -985,12 +991,15 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
         }
     }
 
-    fn exec_return_call_direct(&mut self, v: u32) -> Result<(), Trap> {
+    fn exec_return_call_direct(&mut self, v: u32) -> Result<bool, Trap> {
         self.charge_call_fuel(FUEL_COST_CALL_TOTAL);
         let addr = self.module.resolve_func_addr(v);
         match self.store.state.get_func(addr) {
-            crate::FunctionInstance::Wasm(wasm_func) => self.exec_return_call(wasm_func.clone(), addr),
-            crate::FunctionInstance::Host(host_func) => self.exec_call_host(host_func.clone()),
+            crate::FunctionInstance::Wasm(wasm_func) => {
+                self.exec_return_call(wasm_func.clone(), addr)?;
+                Ok(false)
+            }
+            crate::FunctionInstance::Host(host_func) => self.exec_return_call_host(host_func.clone()),
         }
     }
 
@@ -1019,7 +1028,7 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
         Ok(())
     }
 
-    fn exec_call_indirect<const IS_RETURN_CALL: bool>(&mut self, type_addr: u32, table_addr: u32) -> Result<(), Trap> {
+    fn exec_call_indirect<const IS_RETURN_CALL: bool>(&mut self, type_addr: u32, table_addr: u32) -> Result<bool, Trap> {
         self.charge_call_fuel(FUEL_COST_CALL_TOTAL);
 
         // verify that the table is of the right type, this should be validated by the parser already
@@ -1050,9 +1059,10 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
                 }
 
                 match IS_RETURN_CALL {
-                    true => self.exec_return_call(wasm_func.clone(), func_ref),
-                    false => self.exec_call(wasm_func.clone(), func_ref),
+                    true => self.exec_return_call(wasm_func.clone(), func_ref)?,
+                    false => self.exec_call(wasm_func.clone(), func_ref)?,
                 }
+                Ok(false)
             }
             crate::FunctionInstance::Host(host_func) => {
                 if host_func.ty != *call_ty {
@@ -1063,7 +1073,12 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
                     });
                 }
 
-                self.exec_call_host(host_func.clone())
+                let host_func = host_func.clone();
+                if IS_RETURN_CALL {
+                    return self.exec_return_call_host(host_func);
+                }
+                self.exec_call_host(host_func)?;
+                Ok(false)
             }
         }
     }
-- 
2.43.0


From bf4702950e375557f506aa69f30409838f835e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:51 +0000
Subject: [PATCH 05/27] fix: take bulk memory operands with the memory's index
 type and bounds-check them unsigned

---
 crates/parser/src/visit.rs                  |  4 +-
 crates/tinywasm/src/interpreter/executor.rs | 77 +++++++++++----------
 2 files changed, 41 insertions(+), 40 deletions(-)

diff --git a/crates/parser/src/visit.rs b/crates/parser/src/visit.rs
index 848a6e1..14b3a88 100644
--- a/crates/parser/src/visit.rs
+++ b/crates/parser/src/visit.rs
@@ -378,9 +378,9 @@ impl<'a> wasmparser::VisitOperator<'a> for FunctionBuilder<'_> {
         global [] => [Addr] { visit_global_get(global_index: u32) => GlobalGet }
         memory_index [] => [Addr] { visit_memory_size(memory: u32) => MemorySize }
         memory_index [Addr] => [Addr] { visit_memory_grow(memory: u32) => MemoryGrow }
-        memory_index [Addr, S32, Addr] => [] {
+        memory_index [Addr, S32, Addr] => [] { visit_memory_fill(memory: u32) => MemoryFill }
+        memory_index [Addr, S32, S32] => [] {
             visit_memory_init(data_index: u32, memory: u32) => MemoryInit,
-            visit_memory_fill(memory: u32) => MemoryFill,
         }
         table [Addr] => [S32] { visit_table_get(table: u32) => TableGet }
         table [Addr, S32] => [] { visit_table_set(table: u32) => TableSet }
diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index d6c58ef..507ea2a 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -1306,74 +1306,66 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
     }
 
     fn exec_memory_copy(&mut self, dst_mem: u32, src_mem: u32) -> Result<(), Trap> {
-        let size = i32::stack_pop(&mut self.store.value_stack);
-        let src = i32::stack_pop(&mut self.store.value_stack);
-        let dst = i32::stack_pop(&mut self.store.value_stack);
         let dst_mem_addr = self.module.resolve_mem_addr(dst_mem);
+        let src_mem_addr = self.module.resolve_mem_addr(src_mem);
+        let dst_arch = self.store.state.get_mem(dst_mem_addr).kind.arch();
+        let src_arch = self.store.state.get_mem(src_mem_addr).kind.arch();
+        let len_arch =
+            if dst_arch == MemoryArch::I32 || src_arch == MemoryArch::I32 { MemoryArch::I32 } else { MemoryArch::I64 };
+        let size = self.pop_memory_operand(len_arch);
+        let src = self.pop_memory_operand(src_arch);
+        let dst = self.pop_memory_operand(dst_arch);
 
-        if dst_mem == src_mem {
+        if dst_mem_addr == src_mem_addr {
             // copy within the same memory
-            let mem = self.store.state.get_mem_mut(dst_mem_addr);
-            mem.copy_within(dst as usize, src as usize, size as usize)?;
+            self.store.state.get_mem_mut(dst_mem_addr).copy_within(dst, src, size)
         } else {
             // copy between two memories
-            let src_mem_addr = self.module.resolve_mem_addr(src_mem);
             let (dst_memory, src_memory) = self.store.state.get_mems_mut(dst_mem_addr, src_mem_addr);
-            dst_memory.copy_from_memory(dst as usize, src_memory, src as usize, size as usize)?;
+            dst_memory.copy_from_memory(dst, src_memory, src, size)
         }
-        Ok(())
     }
 
     fn exec_memory_fill(&mut self, addr: u32) -> Result<(), Trap> {
-        let size = i32::stack_pop(&mut self.store.value_stack);
+        let arch = self.store.state.get_mem(self.module.resolve_mem_addr(addr)).kind.arch();
+        let size = self.pop_memory_operand(arch);
         let val = i32::stack_pop(&mut self.store.value_stack);
-        let dst = i32::stack_pop(&mut self.store.value_stack);
+        let dst = self.pop_memory_operand(arch);
         self.exec_memory_fill_impl(addr, dst, val as u8, size)
     }
 
     fn exec_memory_fill_imm(&mut self, addr: u32, val: u8, size: i32) -> Result<(), Trap> {
-        let dst = i32::stack_pop(&mut self.store.value_stack);
-        self.exec_memory_fill_impl(addr, dst, val, size)
+        let arch = self.store.state.get_mem(self.module.resolve_mem_addr(addr)).kind.arch();
+        let dst = self.pop_memory_operand(arch);
+        self.exec_memory_fill_impl(addr, dst, val, size as u32 as usize)
     }
 
-    fn exec_memory_fill_impl(&mut self, addr: u32, dst: i32, val: u8, size: i32) -> Result<(), Trap> {
+    fn exec_memory_fill_impl(&mut self, addr: u32, dst: usize, val: u8, size: usize) -> Result<(), Trap> {
         let mem = self.store.state.get_mem_mut(self.module.resolve_mem_addr(addr));
-        if mem.inner.fill(dst as usize, size as usize, val).is_none() {
+        if mem.inner.fill(dst, size, val).is_none() {
             cold_path();
-            return Err(Trap::MemoryOutOfBounds {
-                offset: dst as usize,
-                len: size as usize,
-                max: self.store.state.get_mem(self.module.resolve_mem_addr(addr)).inner.len(),
-            });
+            return Err(Trap::MemoryOutOfBounds { offset: dst, len: size, max: mem.inner.len() });
         }
         Ok(())
     }
 
     fn exec_memory_init(&mut self, data_index: u32, mem_index: u32) -> Result<(), Trap> {
-        let size = i32::stack_pop(&mut self.store.value_stack);
-        let offset = i32::stack_pop(&mut self.store.value_stack);
-        let dst = i32::stack_pop(&mut self.store.value_stack);
+        let mem_addr = self.module.resolve_mem_addr(mem_index);
+        let size = self.pop_memory_operand(MemoryArch::I32);
+        let offset = self.pop_memory_operand(MemoryArch::I32);
+        let dst = self.pop_memory_operand(self.store.state.get_mem(mem_addr).kind.arch());
 
         let data = &self.store.state.data[self.module.resolve_data_addr(data_index) as usize];
-        let mem = &mut self.store.state.memories[self.module.resolve_mem_addr(mem_index) as usize];
-        let data_len = data.data.as_ref().map_or(0, |d| d.len());
-        if ((size + offset) as usize > data_len) || ((dst + size) as usize > mem.inner.len()) {
-            cold_path();
-            return Err(Trap::MemoryOutOfBounds { offset: offset as usize, len: size as usize, max: data_len });
-        }
-
-        if size == 0 {
-            return Ok(());
-        }
-
-        let Some(data) = &data.data else {
+        let mem = &mut self.store.state.memories[mem_addr as usize];
+        let data = data.data.as_deref().unwrap_or_default();
+        let Some(data) = offset.checked_add(size).and_then(|end| data.get(offset..end)) else {
             cold_path();
-            return Err(Trap::MemoryOutOfBounds { offset: 0, len: 0, max: 0 });
+            return Err(Trap::MemoryOutOfBounds { offset, len: size, max: data.len() });
         };
 
-        if mem.inner.write_all(dst as usize, &data[offset as usize..((offset + size) as usize)]).is_none() {
+        if mem.inner.write_all(dst, data).is_none() {
             cold_path();
-            return Err(Trap::MemoryOutOfBounds { offset: dst as usize, len: size as usize, max: mem.inner.len() });
+            return Err(Trap::MemoryOutOfBounds { offset: dst, len: size, max: mem.inner.len() });
         }
         Ok(())
     }
@@ -1551,6 +1543,15 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
         self.store.state.get_table_mut(table_addr).fill(self.module.func_addrs(), i, n, val.addr().into())
     }
 
+    fn pop_memory_operand(&mut self, arch: MemoryArch) -> usize {
+        let value = match arch {
+            MemoryArch::I32 => <i32>::stack_pop(&mut self.store.value_stack) as u32 as u64,
+            MemoryArch::I64 => <i64>::stack_pop(&mut self.store.value_stack) as u64,
+        };
+        // addresses that don't fit the host address space are always out of bounds
+        usize::try_from(value).unwrap_or(usize::MAX)
+    }
+
     fn pop_table_operand(&mut self, arch: MemoryArch) -> Result<usize, Trap> {
         let value = match arch {
             MemoryArch::I32 => <i32>::stack_pop(&mut self.store.value_stack) as u32 as u64,
-- 
2.43.0


From bd21d2f103203ae444606e6e25de90179795bdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:08 +0000
Subject: [PATCH 06/27] fix: use the memory's index type in fused multiply-add
 stores

---
 crates/tinywasm/src/interpreter/executor.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index 507ea2a..6203441 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -1183,10 +1183,9 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
         let rhs = T::stack_pop(&mut self.store.value_stack);
         let lhs = T::stack_pop(&mut self.store.value_stack);
         let acc = T::stack_pop(&mut self.store.value_stack);
-        let addr = i32::stack_pop(&mut self.store.value_stack);
         let fma = acc + lhs * rhs;
         let mem = self.store.state.get_mem_mut(self.module.resolve_mem_addr(m.mem_addr()));
-        let addr = mem.effective_addr_32::<N>(addr as u32, m.offset())?;
+        let addr = Self::pop_memory_addr::<N>(&mut self.store.value_stack, mem, m.offset())?;
         fma.store_at(&mut *mem.inner, addr)?;
         Ok(())
     }
-- 
2.43.0


From 85a32a3e35249991670401acce014d2c10204298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:54 +0000
Subject: [PATCH 07/27] fix: table.fill stores the function reference it was
 given

---
 crates/tinywasm/src/instance.rs             |  5 -----
 crates/tinywasm/src/interpreter/executor.rs |  2 +-
 crates/tinywasm/src/store/table.rs          | 20 +-------------------
 3 files changed, 2 insertions(+), 25 deletions(-)

diff --git a/crates/tinywasm/src/instance.rs b/crates/tinywasm/src/instance.rs
index 8cff310..68397ba 100644
--- a/crates/tinywasm/src/instance.rs
+++ b/crates/tinywasm/src/instance.rs
@@ -77,11 +77,6 @@ impl ModuleInstance {
         *self.0.func_type_idxs.get(addr as usize).unwrap_or_else(|| unreachable!("invalid function address: {addr}"))
     }
 
-    #[inline]
-    pub(crate) fn func_addrs(&self) -> &[FuncAddr] {
-        &self.0.func_addrs
-    }
-
     /// resolve a function address to the global store address
     #[inline]
     pub(crate) fn resolve_func_addr(&self, addr: FuncAddr) -> FuncAddr {
diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index 6203441..b0762a1 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -1539,7 +1539,7 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
         let n = self.pop_table_operand(arch)?;
         let val = <ValueRef>::stack_pop(&mut self.store.value_stack);
         let i = self.pop_table_operand(arch)?;
-        self.store.state.get_table_mut(table_addr).fill(self.module.func_addrs(), i, n, val.addr().into())
+        self.store.state.get_table_mut(table_addr).fill(i, n, val.addr().into())
     }
 
     fn pop_memory_operand(&mut self, arch: MemoryArch) -> usize {
diff --git a/crates/tinywasm/src/store/table.rs b/crates/tinywasm/src/store/table.rs
index d5f1019..c044bf8 100644
--- a/crates/tinywasm/src/store/table.rs
+++ b/crates/tinywasm/src/store/table.rs
@@ -54,8 +54,7 @@ impl TableInstance {
         })
     }
 
-    pub(crate) fn fill(&mut self, func_addrs: &[u32], addr: usize, len: usize, val: TableElement) -> Result<(), Trap> {
-        let val = val.map(|addr| self.resolve_func_ref(func_addrs, addr));
+    pub(crate) fn fill(&mut self, addr: usize, len: usize, val: TableElement) -> Result<(), Trap> {
         let range = self.checked_range(addr, len)?;
         self.elements[range].fill(val);
         Ok(())
@@ -105,16 +104,6 @@ impl TableInstance {
         self.elements.len()
     }
 
-    fn resolve_func_ref(&self, func_addrs: &[u32], addr: Addr) -> Addr {
-        if self.kind.element_type != WasmType::RefFunc {
-            return addr;
-        }
-
-        *func_addrs
-            .get(addr as usize)
-            .expect("error initializing table: function not found. This should have been caught by the validator")
-    }
-
     pub(crate) fn init(&mut self, offset: usize, init: &[TableElement]) -> Result<(), Trap> {
         let range = self.checked_range(offset, init.len())?;
         self.elements[range].copy_from_slice(init);
@@ -145,13 +134,6 @@ impl TableElement {
             Self::Initialized(addr) => Some(*addr),
         }
     }
-
-    pub(crate) fn map(self, f: impl FnOnce(Addr) -> Addr) -> Self {
-        match self {
-            Self::Uninitialized => Self::Uninitialized,
-            Self::Initialized(addr) => Self::Initialized(f(addr)),
-        }
-    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From d25e3ab3acde7377a66a61f6541eacf9aab7acde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:54 +0000
Subject: [PATCH 08/27] fix: clear the remaining fuel when a fuel-based resume
 ends

---
 crates/tinywasm/src/store/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/tinywasm/src/store/mod.rs b/crates/tinywasm/src/store/mod.rs
index 61b09ef..c65bce8 100644
--- a/crates/tinywasm/src/store/mod.rs
+++ b/crates/tinywasm/src/store/mod.rs
@@ -104,6 +104,7 @@ impl Store {
 
     pub(crate) fn exit_execution(&mut self) {
         self.execution_active = false;
+        self.execution_fuel = 0;
     }
 }
 
-- 
2.43.0


From b2d0ff1b226f6451adebf10055171c944a509691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:02 +0000
Subject: [PATCH 09/27] fix: end a resumable execution when it traps

---
 crates/tinywasm/src/func.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/tinywasm/src/func.rs b/crates/tinywasm/src/func.rs
index 9777a47..ac9b7df 100644
--- a/crates/tinywasm/src/func.rs
+++ b/crates/tinywasm/src/func.rs
@@ -439,7 +439,12 @@ impl<'store> FuncExecution<'store> {
         let result = run(self.store, callframe);
         self.store.exit_execution();
 
-        match result? {
+        let state = result.inspect_err(|_| {
+            // a trap ends the invocation, its frames are gone
+            self.state = FuncExecutionState::Completed { result: None };
+        })?;
+
+        match state {
             crate::interpreter::ExecState::Completed => {
                 let result_ty = self.store.state.get_func(root_func_addr).ty().clone();
                 self.state = FuncExecutionState::Completed { result: None };
-- 
2.43.0


From c27c1682d0fe9c6a22dcd54ad148fb0b47695786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:41 +0000
Subject: [PATCH 10/27] fix: stop initializing segments at the first trap of an
 instantiation

---
 crates/tinywasm/src/instance.rs  |  6 ++---
 crates/tinywasm/src/store/mod.rs | 46 +++++++++++++++++---------------
 2 files changed, 27 insertions(+), 25 deletions(-)

diff --git a/crates/tinywasm/src/instance.rs b/crates/tinywasm/src/instance.rs
index 68397ba..564021f 100644
--- a/crates/tinywasm/src/instance.rs
+++ b/crates/tinywasm/src/instance.rs
@@ -184,8 +184,8 @@ impl ModuleInstance {
         store.init_globals(&mut addrs.globals, &module.globals, &addrs.funcs)?;
         let (elem_addrs, elem_trapped) =
             store.init_elements(&addrs.tables, &addrs.funcs, &addrs.globals, &module.elements)?;
-        let (data_addrs, data_trapped) =
-            store.init_data(&addrs.memories, &addrs.globals, &addrs.funcs, &module.data)?;
+        let (data_addrs, trapped) =
+            store.init_data(&addrs.memories, &addrs.globals, &addrs.funcs, &module.data, elem_trapped)?;
 
         let instance = ModuleInstanceInner {
             store_id: store.id(),
@@ -205,7 +205,7 @@ impl ModuleInstance {
         let instance = ModuleInstance(Rc::new(instance));
         store.add_instance(instance.clone());
 
-        if let Some(trap) = elem_trapped.or(data_trapped) {
+        if let Some(trap) = trapped {
             cold_path();
             return Err(trap.into());
         }
diff --git a/crates/tinywasm/src/store/mod.rs b/crates/tinywasm/src/store/mod.rs
index c65bce8..bdbdc4a 100644
--- a/crates/tinywasm/src/store/mod.rs
+++ b/crates/tinywasm/src/store/mod.rs
@@ -356,6 +356,7 @@ impl Store {
     ) -> Result<(Box<[Addr]>, Option<Trap>)> {
         let elem_count = self.state.elements.len();
         let mut elem_addrs = Vec::with_capacity(elem_count);
+        let mut trapped = None;
         for (i, element) in elements.iter().enumerate() {
             let init = element
                 .items
@@ -367,6 +368,9 @@ impl Store {
                 // doesn't need to be initialized, can be initialized lazily using the `table.init` instruction
                 ElementKind::Passive => Some(init),
 
+                // initialization stops at the first trap, later segments keep their contents
+                _ if trapped.is_some() => Some(init),
+
                 // this one is not available to the runtime but needs to be initialized to declare references
                 ElementKind::Declared => None, // a. Execute the instruction elm.drop i
 
@@ -387,19 +391,15 @@ impl Store {
                     // This isn't mentioned in the spec, but the "unofficial" testsuite has a test for it:
                     // https://github.com/WebAssembly/testsuite/blob/5a1a590603d81f40ef471abba70a90a9ae5f4627/linking.wast#L264-L276
                     // I have NO IDEA why this is allowed, but it is.
-                    let Ok(offset) = usize::try_from(offset) else {
-                        return Ok((
-                            elem_addrs.into_boxed_slice(),
-                            Some(Trap::TableOutOfBounds { offset: usize::MAX, len: init.len(), max: table.size() }),
-                        ));
-                    };
-
-                    if let Err(trap) = table.init(offset, &init) {
-                        return Ok((elem_addrs.into_boxed_slice(), Some(trap)));
+                    let offset = usize::try_from(offset).unwrap_or(usize::MAX);
+                    match table.init(offset, &init) {
+                        // f. Execute the instruction elm.drop i
+                        Ok(()) => None,
+                        Err(trap) => {
+                            trapped = Some(trap);
+                            Some(init)
+                        }
                     }
-
-                    // f. Execute the instruction elm.drop i
-                    None
                 }
             };
 
@@ -408,21 +408,25 @@ impl Store {
         }
 
         // this should be optimized out by the compiler
-        Ok((elem_addrs.into_boxed_slice(), None))
+        Ok((elem_addrs.into_boxed_slice(), trapped))
     }
 
     /// Add data to the store, returning their addresses in the store
+    ///
+    /// Active segments are not written if instantiation has already `trapped`.
     pub(crate) fn init_data(
         &mut self,
         mem_addrs: &[MemAddr],
         global_addrs: &[Addr],
         func_addrs: &[FuncAddr],
         data: &[Data],
+        mut trapped: Option<Trap>,
     ) -> Result<(Box<[Addr]>, Option<Trap>)> {
         let data_count = self.state.data.len();
         let mut data_addrs = Vec::with_capacity(data_count);
         for (i, data) in data.iter().enumerate() {
             let data_val = match &data.kind {
+                tinywasm_types::DataKind::Active { .. } if trapped.is_some() => Some(data.data.to_vec()),
                 tinywasm_types::DataKind::Active { mem: mem_addr, offset } => {
                     let Some(mem_addr) = mem_addrs.get(*mem_addr as usize) else {
                         return Err(Error::Other(format!("memory {mem_addr} not found for data segment {i}")));
@@ -437,14 +441,12 @@ impl Store {
                     match mem.inner.write_all(offset, &data.data) {
                         Some(()) => None,
                         None => {
-                            return Ok((
-                                data_addrs.into_boxed_slice(),
-                                Some(crate::Trap::MemoryOutOfBounds {
-                                    offset,
-                                    len: data.data.len(),
-                                    max: mem.inner.len(),
-                                }),
-                            ));
+                            trapped = Some(crate::Trap::MemoryOutOfBounds {
+                                offset,
+                                len: data.data.len(),
+                                max: mem.inner.len(),
+                            });
+                            Some(data.data.to_vec())
                         }
                     }
                 }
@@ -456,7 +458,7 @@ impl Store {
         }
 
         // this should be optimized out by the compiler
-        Ok((data_addrs.into_boxed_slice(), None))
+        Ok((data_addrs.into_boxed_slice(), trapped))
     }
 
     pub(crate) fn add_func(&mut self, func: FunctionInstance) -> FuncAddr {
-- 
2.43.0


From bb48b5c3c90302aa9157de2d0e5d8187ef76ad98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:52 +0000
Subject: [PATCH 11/27] fix: reject globals, tables and memories of another
 store when linking

---
 crates/tinywasm/src/imports.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/tinywasm/src/imports.rs b/crates/tinywasm/src/imports.rs
index 056d706..d6e6c24 100644
--- a/crates/tinywasm/src/imports.rs
+++ b/crates/tinywasm/src/imports.rs
@@ -220,6 +220,12 @@ impl Imports {
 
         for import in &*module.imports {
             let (val, func_handle) = if let Some(defined) = self.take_defined(import) {
+                match &defined {
+                    Extern::Global(global) => global.0.validate_store(store)?,
+                    Extern::Table(table) => table.0.validate_store(store)?,
+                    Extern::Memory(memory) => memory.0.validate_store(store)?,
+                    Extern::Function(func) => func.item.validate_store(store)?,
+                }
                 match defined {
                     Extern::Global(global) => (ExternVal::Global(global.0.addr), None),
                     Extern::Table(table) => (ExternVal::Table(table.0.addr), None),
@@ -265,7 +271,6 @@ impl Imports {
                         .get(*ty as usize)
                         .ok_or_else(|| LinkingError::incompatible_import_type(import))?;
                     let actual_ty = if let Some(func) = &func_handle {
-                        func.item.validate_store(store)?;
                         &func.ty
                     } else {
                         store.state.get_func(func_addr).ty()
-- 
2.43.0


From 3f38426e10e73e6b878322edf342e6b21026d810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:01 +0000
Subject: [PATCH 12/27] fix: decode surrogate pairs when reading UTF-16 strings

---
 crates/tinywasm/src/reference.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/crates/tinywasm/src/reference.rs b/crates/tinywasm/src/reference.rs
index e46db51..ae95538 100644
--- a/crates/tinywasm/src/reference.rs
+++ b/crates/tinywasm/src/reference.rs
@@ -310,14 +310,10 @@ impl Memory {
     /// Reads a JavaScript-style utf-16 string from memory.
     pub fn read_js_string(&self, store: &Store, offset: usize, len: usize) -> Result<String> {
         let bytes = self.read_vec(store, offset, len)?;
-        let mut string = String::new();
-        for i in 0..(len / 2) {
-            let c = u16::from_le_bytes([bytes[i * 2], bytes[i * 2 + 1]]);
-            string.push(
-                char::from_u32(u32::from(c)).ok_or_else(|| crate::Error::Other("Invalid UTF-16 string".to_string()))?,
-            );
-        }
-        Ok(string)
+        let units = bytes.chunks_exact(2).map(|unit| u16::from_le_bytes([unit[0], unit[1]]));
+        char::decode_utf16(units)
+            .collect::<Result<String, _>>()
+            .map_err(|_| crate::Error::Other("Invalid UTF-16 string".to_string()))
     }
 }
 
-- 
2.43.0


From f00005e1a7968994ec78402bbf6d2b23877c6bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:48 +0000
Subject: [PATCH 13/27] fix: keep local.get and local.tee apart across a branch
 target

---
 crates/parser/src/visit.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/parser/src/visit.rs b/crates/parser/src/visit.rs
index 14b3a88..6582406 100644
--- a/crates/parser/src/visit.rs
+++ b/crates/parser/src/visit.rs
@@ -108,6 +108,8 @@ pub(crate) struct FunctionBuilder<'a> {
     metadata: &'a ModuleMetadata,
     local_types: Vec<OperandSize>,
     local_addr_map: Vec<u16>,
+    /// Position of the latest possible branch target, instructions before it must stay as they are.
+    label_ip: usize,
 }
 
 impl<'a> FunctionBuilder<'a> {
@@ -125,6 +127,7 @@ impl<'a> FunctionBuilder<'a> {
             local_addr_map,
             metadata,
             instructions: prologue,
+            label_ip: 0,
             data: FunctionDataBuilder::default(),
             control_stack: alloc::vec![ControlFrame {
                 kind: BlockKind::Function,
@@ -470,7 +473,7 @@ impl<'a> wasmparser::VisitOperator<'a> for FunctionBuilder<'_> {
     fn visit_local_tee(&mut self, idx: u32) -> Self::Output {
         let (size, local_idx) = self.local(idx)?;
         self.apply_effect(&[size], &[size])?;
-        let src = match (size, self.instructions.last()) {
+        let src = match (size, self.instructions[self.label_ip..].last()) {
             (OperandSize::S32, Some(Instruction::LocalGet32(src))) => Some(*src),
             (OperandSize::S64, Some(Instruction::LocalGet64(src))) => Some(*src),
             (OperandSize::S128, Some(Instruction::LocalGet128(src))) => Some(*src),
@@ -542,7 +545,8 @@ impl<'a> wasmparser::VisitOperator<'a> for FunctionBuilder<'_> {
             if let Some(parent) = self.control_stack.last_mut() {
                 parent.unreachable = !reachable;
             }
-            self.patch_end_jumps(ctx, self.instructions.len());
+            self.label_ip = self.instructions.len();
+            self.patch_end_jumps(ctx, self.label_ip);
         }
         Ok(())
     }
@@ -1007,10 +1011,11 @@ impl FunctionBuilder<'_> {
         let base = self.lane_counts;
         self.push_sizes(&signature.params)?;
         let entry_unreachable = self.is_unreachable();
+        self.label_ip = self.instructions.len();
         self.control_stack.push(ControlFrame {
             kind,
             has_else: false,
-            start_ip: self.instructions.len(),
+            start_ip: self.label_ip,
             branch_jumps: initial_jump.into_iter().collect(),
             height,
             base,
-- 
2.43.0


From fea469ca7c764829086618933b00ace3c79f76f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:36 +0000
Subject: [PATCH 14/27] fix: return quiet NaNs from scalar ceil, floor and
 trunc

---
 crates/tinywasm/src/interpreter/executor.rs    | 12 ++++++------
 crates/tinywasm/src/interpreter/num_helpers.rs | 13 +++++++++++++
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index b0762a1..0774039 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -515,12 +515,12 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
             F64Abs => stack_op!(unary f64, |v| v.abs()),
             F32Neg => stack_op!(unary f32, |v| -v),
             F64Neg => stack_op!(unary f64, |v| -v),
-            F32Ceil => stack_op!(unary f32, |v| v.ceil()),
-            F64Ceil => stack_op!(unary f64, |v| v.ceil()),
-            F32Floor => stack_op!(unary f32, |v| v.floor()),
-            F64Floor => stack_op!(unary f64, |v| v.floor()),
-            F32Trunc => stack_op!(unary f32, |v| v.trunc()),
-            F64Trunc => stack_op!(unary f64, |v| v.trunc()),
+            F32Ceil => stack_op!(unary f32, |v| v.ceil().tw_quiet()),
+            F64Ceil => stack_op!(unary f64, |v| v.ceil().tw_quiet()),
+            F32Floor => stack_op!(unary f32, |v| v.floor().tw_quiet()),
+            F64Floor => stack_op!(unary f64, |v| v.floor().tw_quiet()),
+            F32Trunc => stack_op!(unary f32, |v| v.trunc().tw_quiet()),
+            F64Trunc => stack_op!(unary f64, |v| v.trunc().tw_quiet()),
             F32Nearest => stack_op!(unary f32, |v| v.tw_nearest()),
             F64Nearest => stack_op!(unary f64, |v| v.tw_nearest()),
             F32Sqrt => stack_op!(unary f32, |v| v.sqrt()),
diff --git a/crates/tinywasm/src/interpreter/num_helpers.rs b/crates/tinywasm/src/interpreter/num_helpers.rs
index 7b3807e..f2f3b9e 100644
--- a/crates/tinywasm/src/interpreter/num_helpers.rs
+++ b/crates/tinywasm/src/interpreter/num_helpers.rs
@@ -49,6 +49,7 @@ pub(crate) trait TinywasmFloatExt {
     fn tw_minimum(self, other: Self) -> Self;
     fn tw_maximum(self, other: Self) -> Self;
     fn tw_nearest(self) -> Self;
+    fn tw_quiet(self) -> Self;
 }
 
 use crate::{Result, Trap};
@@ -83,6 +84,18 @@ macro_rules! impl_wasm_float_ops {
                 }
             }
 
+            // Rounding functions may return signaling NaNs unchanged, but wasm only allows quiet ones.
+            #[inline]
+            fn tw_quiet(self) -> Self {
+                match self {
+                    #[cfg(not(feature = "canonicalize-nans"))]
+                    x if x.is_nan() => x + x, // Use `+` to perform NaN propagation and quieting.
+                    #[cfg(feature = "canonicalize-nans")]
+                    x if x.is_nan() => Self::NAN, // Do not preserve NaN
+                    x => x,
+                }
+            }
+
             // https://webassembly.github.io/spec/core/exec/numerics.html#op-fmin
             // Based on f32::minimum (which is not yet stable)
             #[inline]
-- 
2.43.0


From dd059642a9313f40f6b5c91fc24c97579ace5f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:38 +0000
Subject: [PATCH 15/27] fix: size 64-bit memories of up to 2^64 bytes without
 overflowing

---
 crates/types/src/lib.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/crates/types/src/lib.rs b/crates/types/src/lib.rs
index fcac23c..e6ac595 100644
--- a/crates/types/src/lib.rs
+++ b/crates/types/src/lib.rs
@@ -16,8 +16,12 @@ use core::ops::{Deref, Range};
 const MEM_PAGE_SIZE: u64 = 65536;
 const MAX_MEMORY_SIZE: u64 = 4294967296;
 
-const fn max_page_count(page_size: u64) -> u64 {
-    MAX_MEMORY_SIZE / page_size
+const fn max_page_count(arch: MemoryArch, page_size: u64) -> u64 {
+    match arch {
+        MemoryArch::I32 => MAX_MEMORY_SIZE / page_size,
+        // 2^64 bytes, as far as the page count can be represented
+        MemoryArch::I64 => (u64::MAX / page_size).saturating_add((page_size > 1) as u64),
+    }
 }
 
 mod instructions;
@@ -564,7 +568,11 @@ impl MemoryType {
 
     #[inline]
     pub const fn page_count_max(&self) -> u64 {
-        if let Some(page_count_max) = self.page_count_max { page_count_max } else { max_page_count(self.page_size()) }
+        if let Some(page_count_max) = self.page_count_max {
+            page_count_max
+        } else {
+            max_page_count(self.arch, self.page_size())
+        }
     }
 
     #[inline]
@@ -574,12 +582,12 @@ impl MemoryType {
 
     #[inline]
     pub const fn initial_size(&self) -> u64 {
-        self.page_count_initial * self.page_size()
+        self.page_count_initial.saturating_mul(self.page_size())
     }
 
     #[inline]
     pub const fn max_size(&self) -> u64 {
-        self.page_count_max() * self.page_size()
+        self.page_count_max().saturating_mul(self.page_size())
     }
 
     /// Set a different memory architecture.
-- 
2.43.0


From ff22d7aebef3d874032a7150616d853d6edad7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:38 +0000
Subject: [PATCH 16/27] fix: compare the declared maxima when importing a
 memory

---
 crates/tinywasm/src/imports.rs | 8 ++++----
 crates/types/src/lib.rs        | 6 ++++++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/tinywasm/src/imports.rs b/crates/tinywasm/src/imports.rs
index d6e6c24..dc4a0e8 100644
--- a/crates/tinywasm/src/imports.rs
+++ b/crates/tinywasm/src/imports.rs
@@ -195,11 +195,11 @@ impl Imports {
             return Err(LinkingError::incompatible_import_type(import).into());
         }
 
-        if expected.page_count_max() > actual.page_count_max() {
-            return Err(LinkingError::incompatible_import_type(import).into());
+        match (expected.declared_page_count_max(), actual.declared_page_count_max()) {
+            (_, None) => Ok(()),
+            (Some(expected_max), Some(actual_max)) if expected_max <= actual_max => Ok(()),
+            _ => Err(LinkingError::incompatible_import_type(import).into()),
         }
-
-        Ok(())
     }
 
     pub(crate) fn link(&self, store: &mut crate::Store, module: &Module) -> Result<ResolvedImports> {
diff --git a/crates/types/src/lib.rs b/crates/types/src/lib.rs
index e6ac595..3d658ce 100644
--- a/crates/types/src/lib.rs
+++ b/crates/types/src/lib.rs
@@ -575,6 +575,12 @@ impl MemoryType {
         }
     }
 
+    /// The maximum page count the type declares, if any.
+    #[inline]
+    pub const fn declared_page_count_max(&self) -> Option<u64> {
+        self.page_count_max
+    }
+
     #[inline]
     pub const fn page_size(&self) -> u64 {
         if let Some(page_size) = self.page_size { page_size } else { MEM_PAGE_SIZE }
-- 
2.43.0


From 1d5e9a150de9337ecb068f9cc9939c6b3a4050ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 17/27] fix: do not panic when a lazily allocated memory cannot
 be allocated

---
 crates/tinywasm/src/store/memory/lazy.rs | 25 ++++++++++++------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/crates/tinywasm/src/store/memory/lazy.rs b/crates/tinywasm/src/store/memory/lazy.rs
index ef6dace..91fbf89 100644
--- a/crates/tinywasm/src/store/memory/lazy.rs
+++ b/crates/tinywasm/src/store/memory/lazy.rs
@@ -30,23 +30,22 @@ impl LazyLinearMemory {
         Self { ty, initial_len, backend, inner: None }
     }
 
-    fn materialize(&mut self) -> &mut dyn LinearMemory {
-        if self.inner.is_none() {
-            self.inner =
-                Some(self.backend.create(self.ty, self.initial_len).expect("lazy memory materialization failed"));
-        }
-        self.inner.as_deref_mut().expect("lazy memory should be materialized")
+    /// Allocates the backend for a mutation, or returns `None` if it cannot be allocated.
+    fn materialize(&mut self) -> Option<&mut dyn LinearMemory> {
+        self.try_materialize().ok()
     }
 
     fn try_materialize(&mut self) -> core::result::Result<&mut dyn LinearMemory, crate::Trap> {
         if self.inner.is_none() {
             let storage = match self.backend.create(self.ty, self.initial_len) {
                 Ok(storage) => storage,
-                Err(Error::Trap(trap)) => {
+                Err(err) => {
                     cold_path();
-                    return Err(trap);
+                    return Err(match err {
+                        Error::Trap(trap) => trap,
+                        _ => crate::Trap::OutOfMemory,
+                    });
                 }
-                Err(err) => panic!("lazy memory materialization failed: {err}"),
             };
             self.inner = Some(storage);
         }
@@ -79,7 +78,7 @@ impl LinearMemory for LazyLinearMemory {
         if src.is_empty() || addr >= self.len() {
             return 0;
         }
-        self.materialize().write(addr, src)
+        self.materialize().map_or(0, |inner| inner.write(addr, src))
     }
 
     fn write_all(&mut self, addr: usize, src: &[u8]) -> Option<()> {
@@ -90,7 +89,7 @@ impl LinearMemory for LazyLinearMemory {
         if src.is_empty() {
             return Some(());
         }
-        self.materialize().write_all(addr, src)
+        self.materialize()?.write_all(addr, src)
     }
 
     fn fill(&mut self, addr: usize, len: usize, val: u8) -> Option<()> {
@@ -101,7 +100,7 @@ impl LinearMemory for LazyLinearMemory {
         if len == 0 || val == 0 && self.inner.is_none() {
             return Some(());
         }
-        self.materialize().fill(addr, len, val)
+        self.materialize()?.fill(addr, len, val)
     }
 
     fn copy_within(&mut self, dst: usize, src: usize, len: usize) -> Option<()> {
@@ -113,7 +112,7 @@ impl LinearMemory for LazyLinearMemory {
         if self.inner.is_none() || len == 0 || dst == src {
             return Some(());
         }
-        self.materialize().copy_within(dst, src, len)
+        self.materialize()?.copy_within(dst, src, len)
     }
 }
 
-- 
2.43.0


From 461a30665274d46cda4d43cb21ce7910b455256c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 18/27] fix: never let a dynamic call stack grow past its
 maximum

---
 crates/tinywasm/src/interpreter/stack/call_stack.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tinywasm/src/interpreter/stack/call_stack.rs b/crates/tinywasm/src/interpreter/stack/call_stack.rs
index 62f1f8e..cc3782e 100644
--- a/crates/tinywasm/src/interpreter/stack/call_stack.rs
+++ b/crates/tinywasm/src/interpreter/stack/call_stack.rs
@@ -56,7 +56,7 @@ impl CallStack {
         }
 
         let target_capacity = required_len.max(self.stack.capacity().max(1).saturating_mul(2)).min(self.max_size);
-        let Ok(()) = self.stack.try_reserve(target_capacity.saturating_sub(self.stack.len())) else {
+        let Ok(()) = self.stack.try_reserve_exact(target_capacity.saturating_sub(self.stack.len())) else {
             cold_path();
             return Err(Trap::CallStackOverflow);
         };
-- 
2.43.0


From 152dd0436662699a44a4b6ad822e9aaa8491a3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 19/27] fix: start a directly called host function with empty
 stacks

---
 crates/tinywasm/src/func.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/tinywasm/src/func.rs b/crates/tinywasm/src/func.rs
index ac9b7df..6c4ee1d 100644
--- a/crates/tinywasm/src/func.rs
+++ b/crates/tinywasm/src/func.rs
@@ -13,6 +13,10 @@ impl Function {
     pub fn call(&self, store: &mut Store, params: &[WasmValue]) -> Result<Vec<WasmValue>> {
         #[inline]
         fn call_inner(func: &Function, store: &mut Store, params: &[WasmValue]) -> Result<Vec<WasmValue>> {
+            // Nothing is left over from an earlier invocation, also for what a host function calls.
+            store.call_stack.clear();
+            store.value_stack.clear();
+
             let func_instance = store.state.get_func(func.addr);
             let wasm_func = match func_instance {
                 FunctionInstance::Host(host_func) => {
@@ -21,9 +25,7 @@ impl Function {
                 FunctionInstance::Wasm(wasm_func) => wasm_func,
             };
 
-            // Reset stack, push args, allocate locals, create entry frame.
-            store.call_stack.clear();
-            store.value_stack.clear();
+            // Push args, allocate locals, create entry frame.
             store.value_stack.extend_from_wasmvalues(params)?;
             let locals_base = store.value_stack.enter_locals(&wasm_func.func.params, &wasm_func.func.locals)?;
             let callframe = CallFrame::new(func.addr, locals_base, wasm_func.func.locals);
@@ -59,6 +61,9 @@ impl Function {
             store: &mut Store,
             params: &[WasmValue],
         ) -> Result<FuncExecutionState> {
+            store.call_stack.clear();
+            store.value_stack.clear();
+
             let func_instance = store.state.get_func(func.addr);
             match func_instance {
                 FunctionInstance::Host(host_func) => host_func
@@ -66,8 +71,6 @@ impl Function {
                     .call(FuncContext { store, module_addr: func.module_addr }, params)
                     .map(|result| FuncExecutionState::Completed { result: Some(result) }),
                 FunctionInstance::Wasm(wasm_func) => {
-                    store.call_stack.clear();
-                    store.value_stack.clear();
                     store.value_stack.extend_from_wasmvalues(params)?;
                     let locals_base = store.value_stack.enter_locals(&wasm_func.func.params, &wasm_func.func.locals)?;
                     let callframe = CallFrame::new(func.addr, locals_base, wasm_func.func.locals);
-- 
2.43.0


From 139289710449f72308fcbf2d28ee5d81f82cf1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 20/27] fix: bound recursion through host functions by the call
 stack limit

---
 crates/tinywasm/src/func.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/tinywasm/src/func.rs b/crates/tinywasm/src/func.rs
index 6c4ee1d..205d8e3 100644
--- a/crates/tinywasm/src/func.rs
+++ b/crates/tinywasm/src/func.rs
@@ -352,10 +352,16 @@ impl FuncContext<'_> {
                     .inspect_err(|_| self.store.value_stack.truncate_to_base(value_stack_base))?;
 
                 let callframe = CallFrame::new(func.addr, locals_base, wasm_func.func.locals);
-                InterpreterRuntime::exec(self.store, callframe, call_stack_base).inspect_err(|_| {
-                    self.store.call_stack.truncate_to(call_stack_base);
-                    self.store.value_stack.truncate_to_base(value_stack_base);
-                })?;
+
+                // A nested entry occupies a frame of its own, so that recursion through host functions
+                // is bounded by the call stack limit as well.
+                let result = self
+                    .store
+                    .call_stack
+                    .push(callframe)
+                    .and_then(|()| InterpreterRuntime::exec(self.store, callframe, call_stack_base + 1));
+                self.store.call_stack.truncate_to(call_stack_base);
+                result.inspect_err(|_| self.store.value_stack.truncate_to_base(value_stack_base))?;
 
                 collect_call_results(&mut self.store.value_stack, &func.ty)
             }
-- 
2.43.0


From a825ddf0a38a996b36f183d56cbf8d169de6d530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:25 +0000
Subject: [PATCH 21/27] fix: allocate a local memory that only memory.init uses

Instruction::MemoryInit holds the data segment first, but memory_addr read
its first operand as the memory.
---
 crates/types/src/instructions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/types/src/instructions.rs b/crates/types/src/instructions.rs
index a22279e..cf8a217 100644
--- a/crates/types/src/instructions.rs
+++ b/crates/types/src/instructions.rs
@@ -305,7 +305,7 @@ pub enum Instruction {
     TableFill(TableAddr),
 
     // > Bulk Memory Instructions
-    MemoryInit(MemAddr, DataAddr),
+    MemoryInit(DataAddr, MemAddr),
     MemoryCopy { dst_mem: MemAddr, src_mem: MemAddr },
     MemoryFill(MemAddr),
     MemoryFillImm(MemAddr, u8, i32),
@@ -468,7 +468,7 @@ impl Instruction {
             | Self::V128Store64Lane(arg, ..) => Some(arg.mem_addr()),
             Self::MemorySize(mem)
             | Self::MemoryGrow(mem)
-            | Self::MemoryInit(mem, ..)
+            | Self::MemoryInit(_, mem)
             | Self::MemoryFill(mem)
             | Self::MemoryFillImm(mem, ..) => Some(*mem),
             Self::MemoryCopy { dst_mem, src_mem } => Some(if *dst_mem >= *src_mem { *dst_mem } else { *src_mem }),
-- 
2.43.0


From b66b179dfa4cad10331c68f877546e43cd4759f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:15 +0000
Subject: [PATCH 22/27] fix: accept a negative number as the first argument of
 an invoked function

---
 crates/cli/src/cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cli/src/cli.rs b/crates/cli/src/cli.rs
index ae367d2..5aa3229 100644
--- a/crates/cli/src/cli.rs
+++ b/crates/cli/src/cli.rs
@@ -65,7 +65,7 @@ pub struct RunArgs {
     pub engine: EngineFlags,
 
     /// Arguments passed to the invoked Wasm function
-    #[arg(trailing_var_arg = true)]
+    #[arg(trailing_var_arg = true, allow_negative_numbers = true)]
     pub args: Vec<String>,
 }
 
-- 
2.43.0


From a6c2e7b713132df7e8b9cfb289690deb6bc22dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 23/27] fix: give tables the value of their initializer
 expression

The parser accepted a table with an initializer expression and dropped the
expression, so that every element started out null.
---
 crates/parser/src/conversion.rs    | 14 ++++++++++++
 crates/parser/src/module.rs        | 18 +++++----------
 crates/tinywasm/src/instance.rs    |  7 +++++-
 crates/tinywasm/src/store/mod.rs   | 36 +++++++++++++++++++++---------
 crates/tinywasm/src/store/table.rs |  1 +
 crates/types/src/archive.rs        |  2 +-
 crates/types/src/lib.rs            |  5 +++++
 7 files changed, 59 insertions(+), 24 deletions(-)

diff --git a/crates/parser/src/conversion.rs b/crates/parser/src/conversion.rs
index 3658241..1274525 100644
--- a/crates/parser/src/conversion.rs
+++ b/crates/parser/src/conversion.rs
@@ -90,6 +90,20 @@ pub(crate) fn convert_module_memory(memory: wasmparser::MemoryType) -> MemoryTyp
     )
 }
 
+pub(crate) fn convert_module_table(table: wasmparser::Table<'_>) -> Result<(TableType, Box<[ConstInstruction]>)> {
+    let element_type = convert_reftype(table.ty.element_type)?;
+    let ty = if table.ty.table64 {
+        TableType::new64(element_type, table.ty.initial, table.ty.maximum)
+    } else {
+        TableType::new(element_type, table.ty.initial, table.ty.maximum)
+    };
+    let init = match table.init {
+        wasmparser::TableInit::RefNull => Box::default(),
+        wasmparser::TableInit::Expr(expr) => process_const_operators(expr.get_operators_reader())?,
+    };
+    Ok((ty, init))
+}
+
 pub(crate) fn convert_module_globals(
     globals: wasmparser::SectionLimited<'_, wasmparser::Global<'_>>,
 ) -> Result<Box<[Global]>> {
diff --git a/crates/parser/src/module.rs b/crates/parser/src/module.rs
index 05811ec..cffa1e8 100644
--- a/crates/parser/src/module.rs
+++ b/crates/parser/src/module.rs
@@ -52,6 +52,7 @@ pub(crate) struct ModuleReader<'a> {
     pub(crate) code: Vec<FunctionCode>,
     pub(crate) globals: Box<[Global]>,
     pub(crate) table_types: Box<[TableType]>,
+    pub(crate) table_inits: Box<[Box<[ConstInstruction]>]>,
     pub(crate) memory_types: Box<[MemoryType]>,
     pub(crate) imports: Box<[Import]>,
     pub(crate) data: Box<[Data]>,
@@ -128,18 +129,10 @@ impl<'a> ModuleReader<'a> {
                 if let Some(validator) = validator.as_mut() {
                     validator.table_section(&reader)?;
                 }
-                self.table_types = reader
-                    .into_iter()
-                    .map(|table| {
-                        let table = table?;
-                        let element_type = convert_reftype(table.ty.element_type)?;
-                        Ok(if table.ty.table64 {
-                            TableType::new64(element_type, table.ty.initial, table.ty.maximum)
-                        } else {
-                            TableType::new(element_type, table.ty.initial, table.ty.maximum)
-                        })
-                    })
-                    .collect::<Result<_>>()?;
+                let (types, inits): (Vec<_>, Vec<_>) =
+                    reader.into_iter().map(|table| convert_module_table(table?)).collect::<Result<_>>()?;
+                self.table_types = types.into_boxed_slice();
+                self.table_inits = inits.into_boxed_slice();
             }
             Payload::MemorySection(reader) => {
                 check_section("memory", !self.memory_types.is_empty())?;
@@ -477,6 +470,7 @@ impl<'a> ModuleReader<'a> {
             func_type_idxs,
             globals: self.globals,
             table_types: self.table_types,
+            table_inits: self.table_inits,
             imports: self.imports,
             start_func: self.start_func,
             data: self.data,
diff --git a/crates/tinywasm/src/instance.rs b/crates/tinywasm/src/instance.rs
index 564021f..366c856 100644
--- a/crates/tinywasm/src/instance.rs
+++ b/crates/tinywasm/src/instance.rs
@@ -167,7 +167,12 @@ impl ModuleInstance {
         let idx = store.next_module_instance_idx();
         let mut addrs = imports.unwrap_or_default().link(store, module)?;
         addrs.funcs.extend(store.init_funcs(&module.funcs, idx));
-        addrs.tables.extend(store.init_tables(&module.table_types)?);
+        addrs.tables.extend(store.init_tables(
+            &module.table_types,
+            &module.table_inits,
+            &addrs.globals,
+            &addrs.funcs,
+        )?);
         match module.local_memory_allocation {
             LocalMemoryAllocation::Skip => {
                 #[cfg(feature = "guest-debug")]
diff --git a/crates/tinywasm/src/store/mod.rs b/crates/tinywasm/src/store/mod.rs
index bdbdc4a..744b6b7 100644
--- a/crates/tinywasm/src/store/mod.rs
+++ b/crates/tinywasm/src/store/mod.rs
@@ -272,11 +272,23 @@ impl Store {
     }
 
     /// Add tables to the store, returning their addresses in the store
-    pub(crate) fn init_tables(&mut self, tables: &[TableType]) -> Result<impl ExactSizeIterator<Item = TableAddr>> {
+    pub(crate) fn init_tables(
+        &mut self,
+        tables: &[TableType],
+        inits: &[Box<[ConstInstruction]>],
+        global_addrs: &[Addr],
+        func_addrs: &[FuncAddr],
+    ) -> Result<impl ExactSizeIterator<Item = TableAddr> + use<>> {
         let start = self.state.tables.len() as TableAddr;
         self.state.tables.reserve_exact(tables.len());
-        for &table in tables {
-            self.state.tables.push(TableInstance::new(table)?);
+        for (i, &table) in tables.iter().enumerate() {
+            let init = match inits.get(i) {
+                Some(init) if !init.is_empty() => {
+                    TableElement::from(self.eval_const_ref(init, global_addrs, func_addrs)?)
+                }
+                _ => TableElement::Uninitialized,
+            };
+            self.state.tables.push(TableInstance::new_with_init(table, init)?);
         }
         Ok(start..start + tables.len() as TableAddr)
     }
@@ -324,15 +336,19 @@ impl Store {
         Ok(())
     }
 
+    fn eval_const_ref(&self, expr: &[ConstInstruction], globals: &[Addr], funcs: &[FuncAddr]) -> Result<Option<u32>> {
+        match self.eval_const(expr, globals, funcs)? {
+            TinyWasmValue::ValueRef(v) => Ok(v.addr()),
+            other => {
+                cold_path();
+                Err(Error::Other(format!("expected ref type, got {other:?}")))
+            }
+        }
+    }
+
     fn elem_addr(&self, item: &ElementItem, globals: &[Addr], funcs: &[FuncAddr]) -> Result<Option<u32>> {
         match item {
-            ElementItem::Expr(expr) => match self.eval_const(expr, globals, funcs)? {
-                TinyWasmValue::ValueRef(v) => Ok(v.addr()),
-                other => {
-                    cold_path();
-                    Err(Error::Other(format!("expected ref type, got {other:?}")))
-                }
-            },
+            ElementItem::Expr(expr) => self.eval_const_ref(expr, globals, funcs),
             ElementItem::Func(addr) => match funcs.get(*addr as usize) {
                 Some(func_addr) => Ok(Some(*func_addr)),
                 None => {
diff --git a/crates/tinywasm/src/store/table.rs b/crates/tinywasm/src/store/table.rs
index c044bf8..7718f85 100644
--- a/crates/tinywasm/src/store/table.rs
+++ b/crates/tinywasm/src/store/table.rs
@@ -15,6 +15,7 @@ pub(crate) struct TableInstance {
 }
 
 impl TableInstance {
+    #[cfg(test)]
     pub(crate) fn new(kind: TableType) -> Result<Self> {
         Self::new_with_init(kind, TableElement::Uninitialized)
     }
diff --git a/crates/types/src/archive.rs b/crates/types/src/archive.rs
index 48dc53f..3f00248 100644
--- a/crates/types/src/archive.rs
+++ b/crates/types/src/archive.rs
@@ -7,7 +7,7 @@ use crate::Module;
 #[rustfmt::skip]
 const TWASM_MAGIC: [u8; 16] = [ TWASM_MAGIC_PREFIX[0], TWASM_MAGIC_PREFIX[1], TWASM_MAGIC_PREFIX[2], TWASM_MAGIC_PREFIX[3], TWASM_VERSION[0], TWASM_VERSION[1], 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
 const TWASM_MAGIC_PREFIX: &[u8; 4] = b"TWAS";
-const TWASM_VERSION: &[u8; 2] = b"04";
+const TWASM_VERSION: &[u8; 2] = b"05";
 
 fn validate_magic(wasm: &[u8]) -> Result<usize, TwasmError> {
     if wasm.len() < TWASM_MAGIC.len() || &wasm[..TWASM_MAGIC_PREFIX.len()] != TWASM_MAGIC_PREFIX {
diff --git a/crates/types/src/lib.rs b/crates/types/src/lib.rs
index 3d658ce..cd3b553 100644
--- a/crates/types/src/lib.rs
+++ b/crates/types/src/lib.rs
@@ -108,6 +108,11 @@ pub struct ModuleInner {
     /// Corresponds to the `table` section of the original WebAssembly module.
     pub table_types: Box<[TableType]>,
 
+    /// Initial values of the module's tables, empty for tables that start out null.
+    ///
+    /// Corresponds to the initializer expressions of the `table` section of the original WebAssembly module.
+    pub table_inits: Box<[Box<[ConstInstruction]>]>,
+
     /// Memory components of the WebAssembly module used to initialize memories.
     ///
     /// Corresponds to the `memory` section of the original WebAssembly module.
-- 
2.43.0


From 3427ad615df51ad0455cd28dd5e43bb6ead3a224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:09 +0000
Subject: [PATCH 24/27] fix: report operands taken from below a block as an
 error

Without validation, code that takes more operands than its block has
made the lane counts of the lowering go out of step and underflow.
---
 crates/parser/src/visit.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/parser/src/visit.rs b/crates/parser/src/visit.rs
index 6582406..773f8b8 100644
--- a/crates/parser/src/visit.rs
+++ b/crates/parser/src/visit.rs
@@ -950,9 +950,9 @@ impl FunctionBuilder<'_> {
         if self.operand_stack.len() == frame_height && self.is_unreachable() {
             return Ok(());
         }
-        let actual = self
-            .operand_stack
-            .pop()
+        let actual = (self.operand_stack.len() > frame_height)
+            .then(|| self.operand_stack.pop())
+            .flatten()
             .ok_or_else(|| crate::ParseError::Other("logical operand stack underflow".into()))?;
         if actual != expected {
             return Err(crate::ParseError::Other("logical operand width mismatch".into()));
-- 
2.43.0


From b0bc3292d16b65d8b63e6349b2c65bc96ae92510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:34 +0000
Subject: [PATCH 25/27] fix: refuse memory page chunk sizes that are not a
 power of two instead of panicking

---
 crates/cli/src/engine_flags.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/cli/src/engine_flags.rs b/crates/cli/src/engine_flags.rs
index c8df1fe..77e7d77 100644
--- a/crates/cli/src/engine_flags.rs
+++ b/crates/cli/src/engine_flags.rs
@@ -90,8 +90,8 @@ impl EngineFlags {
             config = config.with_memory_backend(match memory_backend {
                 MemoryBackendArg::Vec => tinywasm::MemoryBackend::vec(),
                 MemoryBackendArg::Paged => {
-                    if self.memory_page_chunk_size == 0 {
-                        bail!("--memory-page-chunk-size must be greater than zero");
+                    if !self.memory_page_chunk_size.is_power_of_two() {
+                        bail!("--memory-page-chunk-size must be a power of two");
                     }
                     tinywasm::MemoryBackend::paged(self.memory_page_chunk_size)
                 }
-- 
2.43.0


From 3ea9bd60cc2b237629445c68e61f809deba8f498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:13 +0000
Subject: [PATCH 26/27] fix: resolve script modules by identifier only, and
 register the module named

---
 crates/cli/src/wast_runner.rs | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/crates/cli/src/wast_runner.rs b/crates/cli/src/wast_runner.rs
index 99f1efe..d37724e 100644
--- a/crates/cli/src/wast_runner.rs
+++ b/crates/cli/src/wast_runner.rs
@@ -35,34 +35,19 @@ impl ModuleRegistry {
 
     fn register(&mut self, name: String, module: ModuleInstance) {
         debug!("registering module: {name}");
-        self.modules.insert(name.clone(), module.clone());
-        self.last_module = Some(module.clone());
-        self.named_modules.insert(name, module);
+        self.modules.insert(name, module);
     }
 
     fn get_idx(&self, module_id: Option<wast::token::Id<'_>>) -> Option<u32> {
-        match module_id {
-            Some(module) => self
-                .modules
-                .get(module.name())
-                .or_else(|| self.named_modules.get(module.name()))
-                .map(ModuleInstance::id),
-            None => self.last_module.as_ref().map(ModuleInstance::id),
-        }
+        self.get(module_id).map(|module| module.id())
     }
 
     fn get(&self, module_id: Option<wast::token::Id<'_>>) -> Option<ModuleInstance> {
         match module_id {
-            Some(module_id) => {
-                self.modules.get(module_id.name()).or_else(|| self.named_modules.get(module_id.name())).cloned()
-            }
+            Some(module_id) => self.named_modules.get(module_id.name()).cloned(),
             None => self.last_module.clone(),
         }
     }
-
-    fn last(&self) -> Option<ModuleInstance> {
-        self.last_module.clone()
-    }
 }
 
 #[derive(Default)]
@@ -223,8 +208,8 @@ impl WastRunner {
             };
 
             match directive {
-                Register { span, name, .. } => {
-                    let Some(last) = module_registry.last() else {
+                Register { span, name, module } => {
+                    let Some(module) = module_registry.get(module) else {
                         test_group.add_result(
                             &format!("Register({i})"),
                             span.linecol_in(wast_raw),
@@ -232,7 +217,7 @@ impl WastRunner {
                         );
                         continue;
                     };
-                    module_registry.register(name.to_string(), last);
+                    module_registry.register(name.to_string(), module);
                     test_group.add_result(&format!("Register({i})"), span.linecol_in(wast_raw), Ok(()));
                 }
                 Wat(module) => {
-- 
2.43.0


From ce202f17e07a9f29fb137248bd2110dcdce12aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:13 +0000
Subject: [PATCH 27/27] fix: compare all expected results when a script asserts
 the value of a global

---
 crates/cli/src/wast_runner.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/cli/src/wast_runner.rs b/crates/cli/src/wast_runner.rs
index d37724e..385931d 100644
--- a/crates/cli/src/wast_runner.rs
+++ b/crates/cli/src/wast_runner.rs
@@ -449,11 +449,10 @@ impl WastRunner {
                                     continue;
                                 }
                             };
-                            let expected = expected_alternatives
+                            let matched = expected_alternatives
                                 .iter()
-                                .filter_map(|alts| alts.first())
-                                .find(|exp| module_global.eq_loose(exp));
-                            if expected.is_none() {
+                                .any(|alts| matches!(alts.as_slice(), [exp] if module_global.eq_loose(exp)));
+                            if !matched {
                                 test_group.add_result(
                                     &format!("AssertReturn(unsupported-{i})"),
                                     span.linecol_in(wast_raw),
-- 
2.43.0

