From c266f0be14218299ae6c606cf5c1fdfb60be3144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:04 +0000
Subject: [PATCH 01/18] hooks: read-only verification windows behind
 cfg(verif_hooks)

---
 fhevm/src/lib.rs         |   4 +
 fhevm/src/parameters.rs  |  14 ++
 fhevm/src/verif_hooks.rs | 490 +++++++++++++++++++++++++++++++++++++++
 3 files changed, 508 insertions(+)
 create mode 100644 fhevm/src/verif_hooks.rs

diff --git a/fhevm/src/lib.rs b/fhevm/src/lib.rs
index 50c83bd..41b9bc3 100644
--- a/fhevm/src/lib.rs
+++ b/fhevm/src/lib.rs
@@ -12,6 +12,10 @@ pub(crate) mod ram_offset;
 pub(crate) mod ram_update;
 pub(crate) mod rd_update;
 
+#[allow(unexpected_cfgs)]
+#[cfg(verif_hooks)]
+pub mod verif_hooks;
+
 // Re-export the main functionality
 pub(crate) use instructions::*;
 pub use interpreter::*;
diff --git a/fhevm/src/parameters.rs b/fhevm/src/parameters.rs
index e506f61..d15cf2d 100644
--- a/fhevm/src/parameters.rs
+++ b/fhevm/src/parameters.rs
@@ -332,3 +332,17 @@ impl<B: Backend> CryptographicParameters<B> {
         }
     }
 }
+
+/// Parameters with a shorter LWE secret, for the verification harness: the same
+/// code paths with cheaper bootstrapping (and no security).
+#[cfg(verif_hooks)]
+impl<B: Backend> CryptographicParameters<B>
+where
+    Module<B>: ModuleNew<B>,
+{
+    pub fn new_with_n_lwe(n_lwe: usize) -> Self {
+        let mut params = Self::new();
+        params.n_lwe = n_lwe;
+        params
+    }
+}
diff --git a/fhevm/src/verif_hooks.rs b/fhevm/src/verif_hooks.rs
new file mode 100644
index 0000000..cd88ec1
--- /dev/null
+++ b/fhevm/src/verif_hooks.rs
@@ -0,0 +1,490 @@
+//! Read-only windows onto crate-private state and thin wrappers around
+//! crate-private functions, for the external verification harness.
+//!
+//! Compiled only with `--cfg verif_hooks`; nothing here changes behaviour.
+
+use crate::{
+    codegen::*, debug::InterpreterDebug, memory::Memory, parameters::CryptographicParameters,
+    ram_offset::ram_offset, ram_update::Store, rd_update::Evaluate, update_pc, Instruction,
+    InstructionsParser, Interpreter, PC_UPDATE_OP_LIST, RAM_UPDATE_OP_LIST,
+    RD_UPDATE_RV32I_OP_LIST, RD_UPDATE_RV32M_OP_LIST,
+};
+use crate::keys::VMKeysPrepared;
+use poulpy_core::layouts::GLWESecretPrepared;
+use poulpy_hal::{
+    layouts::{Module, Scratch},
+    source::Source,
+};
+use poulpy_schemes::bin_fhe::{
+    bdd_arithmetic::{FheUint, FheUintPrepared, GetBitCircuitInfo},
+    blind_rotation::CGGI,
+};
+
+#[cfg(all(
+    target_arch = "x86_64",
+    target_feature = "avx2",
+    target_feature = "fma"
+))]
+pub use poulpy_cpu_avx::FFT64Avx as BE;
+#[cfg(not(all(
+    target_arch = "x86_64",
+    target_feature = "avx2",
+    target_feature = "fma"
+)))]
+pub use poulpy_cpu_ref::FFT64Ref as BE;
+
+pub type Keys = VMKeysPrepared<Vec<u8>, CGGI, BE>;
+pub type Sk = GLWESecretPrepared<Vec<u8>, BE>;
+pub type Ct = FheUint<Vec<u8>, u32>;
+pub type CtPrep = FheUintPrepared<Vec<u8>, u32, BE>;
+
+/// Plaintext view of one decoded instruction.
+#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
+pub struct Decoded {
+    pub imm: u32,
+    pub rs1: u32,
+    pub rs2: u32,
+    pub rd: u32,
+    pub rdu: u32,
+    pub mu: u32,
+    pub pcu: u32,
+}
+
+pub fn decode(raw: u32) -> Decoded {
+    let inst = Instruction::new(raw);
+    let (rs2, rs1, rd) = inst.get_registers();
+    let (rdu, mu, pcu) = inst.get_opid();
+    Decoded {
+        imm: inst.get_imm(),
+        rs1,
+        rs2,
+        rd,
+        rdu: rdu.id(),
+        mu: mu.id(),
+        pcu: pcu.id(),
+    }
+}
+
+/// What the parser recorded for instruction `idx`: (imm, rs2, rs1, rd, rdu, mu, pcu).
+pub fn parser_get(
+    parser: &InstructionsParser,
+    idx: usize,
+) -> (i64, i64, i64, i64, i64, i64, i64) {
+    parser.get(idx)
+}
+
+fn name<T: std::fmt::Debug>(x: &T) -> String {
+    format!("{x:?}")
+}
+
+/// (id, mnemonic) of every operation of the three update tables.
+pub fn rd_ops(with_m: bool) -> Vec<(u32, String)> {
+    let list = if with_m {
+        RD_UPDATE_RV32M_OP_LIST
+    } else {
+        RD_UPDATE_RV32I_OP_LIST
+    };
+    list.iter().map(|op| (op.id(), name(op))).collect()
+}
+pub fn ram_ops() -> Vec<(u32, String)> {
+    RAM_UPDATE_OP_LIST
+        .iter()
+        .map(|op| (op.id(), name(op)))
+        .collect()
+}
+pub fn pc_ops() -> Vec<(u32, String)> {
+    PC_UPDATE_OP_LIST
+        .iter()
+        .map(|op| (op.id(), name(op)))
+        .collect()
+}
+
+/// The crate's own plaintext models of the three update steps.
+pub fn rd_eval_plain(id: u32, imm: u32, rs1: u32, rs2: u32, pc: u32, ram: u32) -> u32 {
+    RD_UPDATE_RV32M_OP_LIST
+        .iter()
+        .find(|op| op.id() == id)
+        .unwrap()
+        .eval_plain(imm, rs1, rs2, pc, ram)
+}
+pub fn ram_eval_plain(id: u32, rs2: u32, ram: u32, offset: u32) -> u32 {
+    RAM_UPDATE_OP_LIST
+        .iter()
+        .find(|op| op.id() == id)
+        .unwrap()
+        .eval_plain(rs2, ram, offset)
+}
+pub fn pc_eval_plain(id: u32, imm: u32, rs1: u32, rs2: u32, pc: u32) -> u32 {
+    PC_UPDATE_OP_LIST
+        .iter()
+        .find(|op| op.id() == id)
+        .unwrap()
+        .eval_plain(imm, rs1, rs2, pc)
+}
+
+/// Homomorphic evaluation of one register-update operation.
+#[allow(clippy::too_many_arguments)]
+pub fn rd_eval_enc(
+    id: u32,
+    threads: usize,
+    module: &Module<BE>,
+    res: &mut Ct,
+    rs1: &CtPrep,
+    rs2: &CtPrep,
+    imm: &CtPrep,
+    pc: &CtPrep,
+    ram: &Ct,
+    keys: &Keys,
+    scratch: &mut Scratch<BE>,
+) {
+    RD_UPDATE_RV32I_OP_LIST
+        .iter()
+        .find(|op| op.id() == id)
+        .unwrap()
+        .eval_enc(threads, module, res, rs1, rs2, imm, pc, ram, keys, scratch);
+}
+
+/// Homomorphic evaluation of one store operation.
+#[allow(clippy::too_many_arguments)]
+pub fn ram_eval_enc(
+    id: u32,
+    threads: usize,
+    module: &Module<BE>,
+    res: &mut Ct,
+    rs2: &Ct,
+    loaded: &Ct,
+    offset: &CtPrep,
+    keys: &Keys,
+    scratch: &mut Scratch<BE>,
+) {
+    RAM_UPDATE_OP_LIST
+        .iter()
+        .find(|op| op.id() == id)
+        .unwrap()
+        .eval_enc(threads, module, res, rs2, loaded, offset, keys, scratch);
+}
+
+/// Homomorphic evaluation of the next program counter.
+#[allow(clippy::too_many_arguments)]
+pub fn pc_update_enc(
+    threads: usize,
+    module: &Module<BE>,
+    res: &mut Ct,
+    rs1: &CtPrep,
+    rs2: &CtPrep,
+    pc: &CtPrep,
+    imm: &CtPrep,
+    op_id: &CtPrep,
+    keys: &Keys,
+    scratch: &mut Scratch<BE>,
+) {
+    update_pc(
+        threads, module, res, rs1, rs2, pc, imm, op_id, keys, scratch,
+    );
+}
+
+/// Homomorphic evaluation of the RAM offset of a load or store.
+pub fn ram_offset_enc(
+    threads: usize,
+    module: &Module<BE>,
+    res: &mut Ct,
+    rs1: &CtPrep,
+    imm: &CtPrep,
+    keys: &Keys,
+    scratch: &mut Scratch<BE>,
+) {
+    ram_offset(threads, module, res, rs1, imm, keys, scratch);
+}
+
+/// The generated binary-decision-diagram tables.
+pub fn circuits() -> Vec<(&'static str, &'static dyn GetBitCircuitInfo)> {
+    vec![
+        ("auipc", &codegen_auipc::OUTPUT_CIRCUITS),
+        ("jalr", &codegen_jalr::OUTPUT_CIRCUITS),
+        ("lui", &codegen_lui::OUTPUT_CIRCUITS),
+        ("pc_update", &codegen_pc_update::OUTPUT_CIRCUITS),
+        ("ram_offset", &codegen_ram_offset::OUTPUT_CIRCUITS),
+    ]
+}
+
+/// Decrypted architectural and micro-architectural state after a cycle.
+#[derive(Clone, Debug, PartialEq, Eq)]
+pub struct Snapshot {
+    pub cycle: u32,
+    pub pc: u32,
+    pub registers: Vec<u32>,
+    pub ram: Vec<u32>,
+    pub decoded: Decoded,
+    pub rs1_val: u32,
+    pub rs2_val: u32,
+    pub ram_addr: u32,
+    pub ram_val: u32,
+    pub rd_val: u32,
+}
+
+pub fn snapshot(
+    vm: &Interpreter<BE>,
+    module: &Module<BE>,
+    sk: &Sk,
+    scratch: &mut Scratch<BE>,
+) -> Snapshot {
+    let mut registers = vec![0u32; vm.registers.size()];
+    vm.registers.decrypt(module, &mut registers, sk, scratch);
+    let mut ram = vec![0u32; vm.ram.size()];
+    vm.ram.decrypt(module, &mut ram, sk, scratch);
+    Snapshot {
+        cycle: vm.cycle,
+        pc: vm.pc_fhe_uint.decrypt(module, sk, scratch),
+        registers,
+        ram,
+        decoded: Decoded {
+            imm: vm.imm_val_fhe_uint.decrypt(module, sk, scratch),
+            rs1: vm.rs1_addr_fhe_uint.decrypt(module, sk, scratch),
+            rs2: vm.rs2_addr_fhe_uint.decrypt(module, sk, scratch),
+            rd: vm.rd_addr_fhe_uint.decrypt(module, sk, scratch),
+            rdu: vm.rdu_val_fhe_uint.decrypt(module, sk, scratch),
+            mu: vm.mu_val_fhe_uint.decrypt(module, sk, scratch),
+            pcu: vm.pcu_val_fhe_uint.decrypt(module, sk, scratch),
+        },
+        rs1_val: vm.rs1_val_fhe_uint.decrypt(module, sk, scratch),
+        rs2_val: vm.rs2_val_fhe_uint.decrypt(module, sk, scratch),
+        ram_addr: vm.ram_addr_fhe_uint.decrypt(module, sk, scratch),
+        ram_val: vm.ram_val_fhe_uint.decrypt(module, sk, scratch),
+        rd_val: vm.rd_val_fhe_uint.decrypt(module, sk, scratch),
+    }
+}
+
+/// log2 of the largest deviation of each ciphertext of the state from the
+/// exact encoding of the value it decrypts to.
+#[derive(Clone, Debug)]
+pub struct Noise {
+    pub pc: f64,
+    pub imm: f64,
+    pub rs1_val: f64,
+    pub rs2_val: f64,
+    pub ram_addr: f64,
+    pub ram_val: f64,
+    pub rd_val: f64,
+    pub registers: f64,
+    pub ram: f64,
+}
+
+pub fn noise(
+    vm: &Interpreter<BE>,
+    s: &Snapshot,
+    module: &Module<BE>,
+    sk: &Sk,
+    scratch: &mut Scratch<BE>,
+) -> Noise {
+    let max = |v: Vec<f64>| v.into_iter().fold(f64::NEG_INFINITY, f64::max);
+    let mut one = |ct: &Ct, want: u32| ct.noise(module, want, sk, scratch).max().log2();
+    let pc = one(&vm.pc_fhe_uint, s.pc);
+    let imm = one(&vm.imm_val_fhe_uint, s.decoded.imm);
+    let rs1_val = one(&vm.rs1_val_fhe_uint, s.rs1_val);
+    let rs2_val = one(&vm.rs2_val_fhe_uint, s.rs2_val);
+    let ram_addr = one(&vm.ram_addr_fhe_uint, s.ram_addr);
+    let ram_val = one(&vm.ram_val_fhe_uint, s.ram_val);
+    let rd_val = one(&vm.rd_val_fhe_uint, s.rd_val);
+    Noise {
+        pc,
+        imm,
+        rs1_val,
+        rs2_val,
+        ram_addr,
+        ram_val,
+        rd_val,
+        registers: max(vm.registers.noise(module, &s.registers, sk, scratch)),
+        ram: max(vm.ram.noise(module, &s.ram, sk, scratch)),
+    }
+}
+
+/// Decrypts the encrypted instruction ROM, field by field.
+pub fn rom(
+    vm: &Interpreter<BE>,
+    module: &Module<BE>,
+    sk: &Sk,
+    scratch: &mut Scratch<BE>,
+) -> Vec<Decoded> {
+    let mut get = |m: &Memory| {
+        let mut v = vec![0u32; m.size()];
+        m.decrypt(module, &mut v, sk, scratch);
+        v
+    };
+    let (imm, rs1, rs2, rd) = (
+        get(&vm.imm_rom),
+        get(&vm.rs1_rom),
+        get(&vm.rs2_rom),
+        get(&vm.rd_rom),
+    );
+    let (rdu, mu, pcu) = (get(&vm.rdu_rom), get(&vm.mu_rom), get(&vm.pcu_rom));
+    (0..imm.len())
+        .map(|i| Decoded {
+            imm: imm[i],
+            rs1: rs1[i],
+            rs2: rs2[i],
+            rd: rd[i],
+            rdu: rdu[i],
+            mu: mu[i],
+            pcu: pcu[i],
+        })
+        .collect()
+}
+
+/// Places the encrypted program counter at `pc` (as if a jump had just landed there).
+pub fn set_pc(
+    vm: &mut Interpreter<BE>,
+    pc: u32,
+    module: &Module<BE>,
+    sk: &Sk,
+    source_xa: &mut Source,
+    source_xe: &mut Source,
+    scratch: &mut Scratch<BE>,
+) {
+    vm.pc_fhe_uint
+        .encrypt_sk(module, pc, sk, source_xa, source_xe, scratch);
+    vm.cycle = vm.cycle.max(1);
+    while vm.measurements.cycle_measurements.len() < vm.cycle as usize {
+        vm.measurements
+            .cycle_measurements
+            .push(crate::Measurement::new());
+    }
+}
+
+/// An encrypted memory on its own.
+pub struct Mem(Memory);
+
+impl Mem {
+    pub fn new(params: &CryptographicParameters<BE>, word_size: usize, size: usize) -> Self {
+        Self(Memory::alloc(&params.ram_infos(), word_size, size))
+    }
+    pub fn size(&self) -> usize {
+        self.0.size()
+    }
+    pub fn encrypt(
+        &mut self,
+        module: &Module<BE>,
+        data: &[u32],
+        sk: &Sk,
+        source_xa: &mut Source,
+        source_xe: &mut Source,
+        scratch: &mut Scratch<BE>,
+    ) {
+        self.0
+            .encrypt_sk(module, data, sk, source_xa, source_xe, scratch);
+    }
+    pub fn decrypt(&self, module: &Module<BE>, sk: &Sk, scratch: &mut Scratch<BE>) -> Vec<u32> {
+        let mut data = vec![0u32; self.0.size()];
+        self.0.decrypt(module, &mut data, sk, scratch);
+        data
+    }
+    pub fn noise(
+        &self,
+        module: &Module<BE>,
+        want: &[u32],
+        sk: &Sk,
+        scratch: &mut Scratch<BE>,
+    ) -> f64 {
+        self.0
+            .noise(module, want, sk, scratch)
+            .into_iter()
+            .fold(f64::NEG_INFINITY, f64::max)
+    }
+    #[allow(clippy::too_many_arguments)]
+    pub fn read_stateless(
+        &mut self,
+        threads: usize,
+        module: &Module<BE>,
+        res: &mut Ct,
+        address: &CtPrep,
+        offset: usize,
+        keys: &Keys,
+        scratch: &mut Scratch<BE>,
+    ) {
+        self.0
+            .read_stateless(threads, module, res, address, offset, keys, scratch);
+    }
+    #[allow(clippy::too_many_arguments)]
+    pub fn read_statefull(
+        &mut self,
+        threads: usize,
+        module: &Module<BE>,
+        res: &mut Ct,
+        address: &CtPrep,
+        offset: usize,
+        keys: &Keys,
+        scratch: &mut Scratch<BE>,
+    ) {
+        self.0
+            .read_statefull(threads, module, res, address, offset, keys, scratch);
+    }
+    #[allow(clippy::too_many_arguments)]
+    pub fn read_statefull_rev(
+        &mut self,
+        threads: usize,
+        module: &Module<BE>,
+        w: &Ct,
+        address: &CtPrep,
+        offset: usize,
+        keys: &Keys,
+        scratch: &mut Scratch<BE>,
+    ) {
+        self.0
+            .read_statefull_rev(threads, module, w, address, offset, keys, scratch);
+    }
+    #[allow(clippy::too_many_arguments)]
+    pub fn write(
+        &mut self,
+        threads: usize,
+        module: &Module<BE>,
+        w: &Ct,
+        address: &CtPrep,
+        offset: usize,
+        keys: &Keys,
+        scratch: &mut Scratch<BE>,
+    ) {
+        self.0
+            .write(threads, module, w, address, offset, keys, scratch);
+    }
+    pub fn zero(
+        &mut self,
+        threads: usize,
+        module: &Module<BE>,
+        addr: usize,
+        keys: &Keys,
+        scratch: &mut Scratch<BE>,
+    ) {
+        self.0.zero(threads, module, addr, keys, scratch);
+    }
+}
+
+/// The plaintext mirror that `cycle_debug` compares the encrypted state with.
+pub struct Mirror(InterpreterDebug);
+
+impl Mirror {
+    pub fn new(rom_size: usize, ram_size: usize) -> Self {
+        Self(InterpreterDebug::new(rom_size, ram_size))
+    }
+    pub fn set_instructions(&mut self, parser: &InstructionsParser) {
+        self.0.set_instructions(parser);
+    }
+    pub fn set_ram(&mut self, ram: &[u32]) {
+        self.0.set_ram(ram);
+    }
+    pub fn cycle(&mut self) {
+        self.0.read_instructions();
+        self.0.read_registers();
+        self.0.read_ram();
+        self.0.update_registers(RD_UPDATE_RV32I_OP_LIST);
+        self.0.update_ram();
+        self.0.update_pc();
+    }
+    pub fn pc(&self) -> u32 {
+        self.0.pc
+    }
+    pub fn registers(&self) -> &[u32; 32] {
+        &self.0.registers
+    }
+    pub fn ram(&self) -> &[u32] {
+        &self.0.ram
+    }
+}
-- 
2.43.0


From e9f9cf492223dea718e9ab0376fdf5611226d33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:04 +0000
Subject: [PATCH 02/18] fix: sign-extend the byte loaded by LB in the encrypted
 VM

---
 fhevm/src/rd_update.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fhevm/src/rd_update.rs b/fhevm/src/rd_update.rs
index 4375ad6..1f29d49 100644
--- a/fhevm/src/rd_update.rs
+++ b/fhevm/src/rd_update.rs
@@ -136,7 +136,7 @@ impl<BE: Backend> Evaluate<u32, BE> for RD_UPDATE {
                 res.zero_byte(module, 1, keys, scratch);
                 res.zero_byte(module, 2, keys, scratch);
                 res.zero_byte(module, 3, keys, scratch);
-                //res.sext(module, 0, keys, scratch);
+                res.sext(module, 0, keys, scratch);
             }
             Self::LBU => {
                 module.glwe_copy(res, ram);
-- 
2.43.0


From 7ced5acd9894fe1df2001a067f79895c3343c09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:04 +0000
Subject: [PATCH 03/18] fix: byte and half-word loads read the addressed byte
 of the word, not byte 0

---
 fhevm/src/debug.rs       |  7 +++++++
 fhevm/src/interpreter.rs | 28 +++++++++++++++++++++++++++-
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/fhevm/src/debug.rs b/fhevm/src/debug.rs
index a5f1f80..853d380 100644
--- a/fhevm/src/debug.rs
+++ b/fhevm/src/debug.rs
@@ -110,7 +110,14 @@ impl InterpreterDebug {
         let ram: u32 = self.ram_val;
         let pc: u32 = self.pc;
 
+        // Byte & half-word loads address a byte inside the word read from RAM.
+        let ram_aligned: u32 = ram >> (8 * (self.ram_addr & 0x3));
+
         for op in ops {
+            let ram: u32 = match op {
+                RD_UPDATE::LB | RD_UPDATE::LBU | RD_UPDATE::LH | RD_UPDATE::LHU => ram_aligned,
+                _ => ram,
+            };
             rd_map.insert(op.id(), op.eval_plain(imm, rs1, rs2, pc, ram));
         }
 
diff --git a/fhevm/src/interpreter.rs b/fhevm/src/interpreter.rs
index 132ed8d..9fd2b0c 100644
--- a/fhevm/src/interpreter.rs
+++ b/fhevm/src/interpreter.rs
@@ -1136,12 +1136,38 @@ impl<BE: Backend> Interpreter<BE> {
             let mut rd_map: HashMap<u32, FheUint<Vec<u8>, u32>> = HashMap::new();
 
             this_cycle_measurement.time_evaluate_rd_ops = measure_duration(|| {
+                // Byte & half-word loads address a byte inside the word read from RAM:
+                // blindly moves that byte (2 LSB of the address) to byte 0.
+                let log_gap: usize = module.log_n() - u32::BITS.ilog2() as usize;
+                let mut ram_val_rotated: Vec<FheUint<Vec<u8>, u32>> = (0..4)
+                    .map(|byte| {
+                        let mut tmp = FheUint::alloc_from_infos(ram_val);
+                        module.glwe_rotate(-((byte << log_gap) as i64), &mut tmp, ram_val);
+                        tmp
+                    })
+                    .collect();
+                let mut ram_val_aligned: FheUint<Vec<u8>, u32> = FheUint::alloc_from_infos(ram_val);
+                module.glwe_blind_selection(
+                    &mut ram_val_aligned,
+                    ram_val_rotated.iter_mut().enumerate().collect(),
+                    &self.ram_addr_fhe_uint_prepared,
+                    0,
+                    2,
+                    scratch,
+                );
+
                 // Evaluates arithmetic operations & store in map with respective op ID
                 for op in ops {
                     let mut tmp: FheUint<Vec<u8>, u32> =
                         FheUint::alloc_from_infos(&self.imm_val_fhe_uint);
+                    let ram: &FheUint<Vec<u8>, u32> = match op {
+                        RD_UPDATE::LB | RD_UPDATE::LBU | RD_UPDATE::LH | RD_UPDATE::LHU => {
+                            &ram_val_aligned
+                        }
+                        _ => ram_val,
+                    };
                     op.eval_enc(
-                        threads, module, &mut tmp, rs1, rs2, imm, pc, ram_val, keys, scratch,
+                        threads, module, &mut tmp, rs1, rs2, imm, pc, ram, keys, scratch,
                     );
                     rd_map.insert(op.id(), tmp);
                 }
-- 
2.43.0


From 7a3b5159f6368a411f934e8685acfcd336175db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:07 +0000
Subject: [PATCH 04/18] hooks: TestVM, EncryptedVM and ciphertext accessors
 behind cfg(verif_hooks)

---
 compiler/src/interpreter.rs        | 22 ++++++++++++++++++++
 compiler/src/interpreter/testvm.rs | 19 ++++++++++++++++++
 fhevm/src/memory.rs                | 18 +++++++++++++++++
 fhevm/src/verif_hooks.rs           | 32 ++++++++++++++++++++++++++++++
 4 files changed, 91 insertions(+)

diff --git a/compiler/src/interpreter.rs b/compiler/src/interpreter.rs
index 03dcc49..7dd491f 100644
--- a/compiler/src/interpreter.rs
+++ b/compiler/src/interpreter.rs
@@ -419,3 +419,25 @@ impl Phantom {
         )
     }
 }
+
+/// State access for the external verification harness.
+#[allow(unexpected_cfgs)]
+#[cfg(verif_hooks)]
+impl EncryptedVM {
+    #[allow(clippy::type_complexity)]
+    pub fn verif_parts(
+        &self,
+    ) -> (
+        &CryptographicParameters<BackendImpl>,
+        &GLWESecretPrepared<Vec<u8>, BackendImpl>,
+        &VMKeysPrepared<Vec<u8>, CGGI, BackendImpl>,
+        &Interpreter<BackendImpl>,
+    ) {
+        (
+            &self.params,
+            &self.sk_prepared,
+            &self.key_prepared,
+            &self.interpreter,
+        )
+    }
+}
diff --git a/compiler/src/interpreter/testvm.rs b/compiler/src/interpreter/testvm.rs
index dcd042c..cc55437 100644
--- a/compiler/src/interpreter/testvm.rs
+++ b/compiler/src/interpreter/testvm.rs
@@ -1188,3 +1188,22 @@ mod utils {
         return out_v;
     }
 }
+
+/// State access for the external verification harness.
+#[allow(unexpected_cfgs)]
+#[cfg(verif_hooks)]
+impl TestVM {
+    pub fn verif_pc(&self) -> u32 {
+        self.pc
+    }
+    pub fn verif_registers(&self) -> &[u32; 32] {
+        &self.registers
+    }
+    pub fn verif_ram(&self) -> &[u8] {
+        &self.ram.data
+    }
+    pub fn verif_set(&mut self, pc: u32, registers: &[u32; 32]) {
+        self.pc = pc;
+        self.registers = *registers;
+    }
+}
diff --git a/fhevm/src/memory.rs b/fhevm/src/memory.rs
index 981e7ca..d22389a 100644
--- a/fhevm/src/memory.rs
+++ b/fhevm/src/memory.rs
@@ -808,3 +808,21 @@ impl BitArray {
         }
     }
 }
+
+#[allow(unexpected_cfgs)]
+#[cfg(verif_hooks)]
+impl Memory {
+    /// Serialized ciphertexts, one per polynomial, for the verification harness.
+    pub(crate) fn verif_bytes(&self) -> Vec<Vec<u8>> {
+        use poulpy_hal::layouts::WriterTo;
+        self.bits
+            .iter()
+            .flat_map(|b| b.data.iter())
+            .map(|ct| {
+                let mut v = vec![];
+                ct.write_to(&mut v).unwrap();
+                v
+            })
+            .collect()
+    }
+}
diff --git a/fhevm/src/verif_hooks.rs b/fhevm/src/verif_hooks.rs
index cd88ec1..be167fc 100644
--- a/fhevm/src/verif_hooks.rs
+++ b/fhevm/src/verif_hooks.rs
@@ -330,6 +330,34 @@ pub fn rom(
         .collect()
 }
 
+fn bytes<G: poulpy_core::layouts::GLWEToRef>(ct: &G) -> Vec<u8> {
+    use poulpy_hal::layouts::WriterTo;
+    let mut v = vec![];
+    ct.to_ref().write_to(&mut v).unwrap();
+    v
+}
+
+/// Serialized ciphertext.
+pub fn ct_bytes(ct: &Ct) -> Vec<u8> {
+    bytes(ct)
+}
+
+/// Serialized ciphertexts of the state: (component, bytes of each polynomial).
+pub fn state_bytes(vm: &Interpreter<BE>) -> Vec<(&'static str, Vec<Vec<u8>>)> {
+    vec![
+        ("imm_rom", vm.imm_rom.verif_bytes()),
+        ("rs1_rom", vm.rs1_rom.verif_bytes()),
+        ("rs2_rom", vm.rs2_rom.verif_bytes()),
+        ("rd_rom", vm.rd_rom.verif_bytes()),
+        ("rdu_rom", vm.rdu_rom.verif_bytes()),
+        ("mu_rom", vm.mu_rom.verif_bytes()),
+        ("pcu_rom", vm.pcu_rom.verif_bytes()),
+        ("registers", vm.registers.verif_bytes()),
+        ("ram", vm.ram.verif_bytes()),
+        ("pc", vec![bytes(&vm.pc_fhe_uint)]),
+    ]
+}
+
 /// Places the encrypted program counter at `pc` (as if a jump had just landed there).
 pub fn set_pc(
     vm: &mut Interpreter<BE>,
@@ -360,6 +388,10 @@ impl Mem {
     pub fn size(&self) -> usize {
         self.0.size()
     }
+    /// Serialized ciphertexts, one per polynomial.
+    pub fn ciphertexts(&self) -> Vec<Vec<u8>> {
+        self.0.verif_bytes()
+    }
     pub fn encrypt(
         &mut self,
         module: &Module<BE>,
-- 
2.43.0


From 93a0ee539bbf6ed589223b91f9d3967da99ef4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:28 +0000
Subject: [PATCH 05/18] fix: plaintext DIV, DIVU and REM by zero return the
 values RISC-V defines

---
 fhevm/src/instructions/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fhevm/src/instructions/mod.rs b/fhevm/src/instructions/mod.rs
index 8243517..a325c57 100644
--- a/fhevm/src/instructions/mod.rs
+++ b/fhevm/src/instructions/mod.rs
@@ -387,7 +387,7 @@ impl RD_UPDATE {
             RD_UPDATE::MULHU => ((rs1 as i64).wrapping_mul(rs2 as i64) >> 32) as u32,
             RD_UPDATE::DIV => {
                 if rs2 == 0 {
-                    return i32::MAX as u32;
+                    return u32::MAX;
                 } else if (rs1 as i32 == i32::MIN) && (rs2 as i32 == -1) {
                     return i32::MIN as u32;
                 }
@@ -395,12 +395,12 @@ impl RD_UPDATE {
             }
             RD_UPDATE::DIVU => {
                 if rs2 == 0 {
-                    return rs1;
+                    return u32::MAX;
                 }
                 rs1 / rs2
             }
             RD_UPDATE::REM => {
-                if rs1 == 0 {
+                if rs2 == 0 {
                     rs1
                 } else if rs1 as i32 == i32::MIN && rs2 as i32 == -1 {
                     0
-- 
2.43.0


From e7c269da99019a77e447d997ad98e732396a605c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:28 +0000
Subject: [PATCH 06/18] fix: TestVM division and remainder by zero and on
 overflow follow RISC-V instead of panicking

---
 compiler/src/interpreter/testvm.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/compiler/src/interpreter/testvm.rs b/compiler/src/interpreter/testvm.rs
index cc55437..1a4a616 100644
--- a/compiler/src/interpreter/testvm.rs
+++ b/compiler/src/interpreter/testvm.rs
@@ -1075,8 +1075,13 @@ impl TestVM {
                     self.register(rd)
                 );
 
-                *self.register_mut(rd) =
-                    ((self.register(rs1) as i32) / (self.register(rs2) as i32)) as u32;
+                // Division by zero returns -1; i32::MIN / -1 wraps
+                let (rs1v, rs2v) = (self.register(rs1) as i32, self.register(rs2) as i32);
+                *self.register_mut(rd) = if rs2v == 0 {
+                    u32::MAX
+                } else {
+                    rs1v.wrapping_div(rs2v) as u32
+                };
 
                 self.pc += 4;
             }
@@ -1091,7 +1096,11 @@ impl TestVM {
                     self.register(rd)
                 );
 
-                *self.register_mut(rd) = self.register(rs1) / self.register(rs2);
+                // Division by zero returns 2^32 - 1
+                *self.register_mut(rd) = self
+                    .register(rs1)
+                    .checked_div(self.register(rs2))
+                    .unwrap_or(u32::MAX);
 
                 self.pc += 4;
             }
@@ -1106,8 +1115,13 @@ impl TestVM {
                     self.register(rd)
                 );
 
-                *self.register_mut(rd) =
-                    (self.register(rs1) as i32 % self.register(rs2) as i32) as u32;
+                // Remainder by zero returns the dividend; i32::MIN % -1 is zero
+                let (rs1v, rs2v) = (self.register(rs1) as i32, self.register(rs2) as i32);
+                *self.register_mut(rd) = if rs2v == 0 {
+                    rs1v as u32
+                } else {
+                    rs1v.wrapping_rem(rs2v) as u32
+                };
 
                 self.pc += 4;
             }
@@ -1122,7 +1136,9 @@ impl TestVM {
                     self.register(rd)
                 );
 
-                *self.register_mut(rd) = self.register(rs1) % self.register(rs2);
+                // Remainder by zero returns the dividend
+                let rs1v = self.register(rs1);
+                *self.register_mut(rd) = rs1v.checked_rem(self.register(rs2)).unwrap_or(rs1v);
 
                 self.pc += 4;
             } // Inst::ECALL => {
-- 
2.43.0


From 43acb87db54c5778ca17f8ce123810b140b7694e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:28 +0000
Subject: [PATCH 07/18] fix: load the initialised part of data segments that
 end with .bss

---
 compiler/src/interpreter.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/compiler/src/interpreter.rs b/compiler/src/interpreter.rs
index 7dd491f..6b267b7 100644
--- a/compiler/src/interpreter.rs
+++ b/compiler/src/interpreter.rs
@@ -218,16 +218,13 @@ impl Phantom {
             ram_offset = hdrs[0].p_vaddr as usize;
             // load ram with .inpdata,.rodata,.data.,etc.
             hdrs.iter().for_each(|ph| {
-                // assert!(
-                //     ph.p_filesz == ph.p_memsz,
-                //     "Header contains uninitialised values (most probably .bss exists)"
-                // );
-                if ph.p_memsz > 0 && ph.p_filesz == ph.p_memsz {
+                // p_filesz < p_memsz when the segment ends with .bss, which stays zero
+                if ph.p_filesz > 0 {
                     let vaddr = ph.p_vaddr as usize;
                     boot_ram_data
-                        [(vaddr - ram_offset)..(vaddr + (ph.p_memsz as usize) - ram_offset)]
+                        [(vaddr - ram_offset)..(vaddr + (ph.p_filesz as usize) - ram_offset)]
                         .copy_from_slice(
-                            &elf_bytes[ph.p_offset as usize..(ph.p_memsz + ph.p_offset) as usize],
+                            &elf_bytes[ph.p_offset as usize..(ph.p_filesz + ph.p_offset) as usize],
                         );
                 }
             });
-- 
2.43.0


From faf1a8905b99aa06595210970ce81f26adf33152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:28 +0000
Subject: [PATCH 08/18] fix: Memory::zero clears the word at the given address

---
 fhevm/src/memory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fhevm/src/memory.rs b/fhevm/src/memory.rs
index d22389a..94c4da9 100644
--- a/fhevm/src/memory.rs
+++ b/fhevm/src/memory.rs
@@ -151,7 +151,7 @@ impl Memory {
         Scratch<BE>: ScratchTakeCore<BE>,
     {
         let poly: usize = addr / module.n();
-        let idx: usize = poly % module.n();
+        let idx: usize = addr % module.n();
 
         let glwe_infos: GLWELayout = self.bits[0].data[0].glwe_layout();
         let key_infos: GGLWELayout = keys.automorphism_key_infos();
-- 
2.43.0


From e639aa30c2dc5f561a3533e052c5ed1d6da3be58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:45 +0000
Subject: [PATCH 09/18] fix: init_registers also initialises the registers of
 the debug mirror

---
 fhevm/src/debug.rs       | 5 +++++
 fhevm/src/interpreter.rs | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/fhevm/src/debug.rs b/fhevm/src/debug.rs
index 853d380..71c593c 100644
--- a/fhevm/src/debug.rs
+++ b/fhevm/src/debug.rs
@@ -75,6 +75,11 @@ impl InterpreterDebug {
         }
     }
 
+    pub fn set_registers(&mut self, registers: &[u32]) {
+        self.registers.fill(0);
+        self.registers[..registers.len()].copy_from_slice(registers);
+    }
+
     pub fn set_ram(&mut self, ram: &[u32]) {
         assert_eq!(self.ram.len(), ram.len());
         self.ram.copy_from_slice(ram);
diff --git a/fhevm/src/interpreter.rs b/fhevm/src/interpreter.rs
index 9fd2b0c..ec33ff9 100644
--- a/fhevm/src/interpreter.rs
+++ b/fhevm/src/interpreter.rs
@@ -371,6 +371,10 @@ impl<BE: Backend> Interpreter<BE> {
         M: ModuleN + GLWEEncryptSk<BE>,
         Scratch<BE>: ScratchTakeCore<BE>,
     {
+        if let Some(vm_debug) = &mut self.vm_debug {
+            vm_debug.set_registers(data);
+        }
+
         self.registers
             .encrypt_sk(module, data, sk_prepared, source_xa, source_xe, scratch);
     }
-- 
2.43.0


From 4e105a3564d31e3058b0996d72195ae1fc4f6a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:45 +0000
Subject: [PATCH 10/18] fix: a debug VM accepts programs and data shorter than
 its ROM and RAM, like any other VM

---
 fhevm/src/debug.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fhevm/src/debug.rs b/fhevm/src/debug.rs
index 71c593c..8f7a694 100644
--- a/fhevm/src/debug.rs
+++ b/fhevm/src/debug.rs
@@ -61,7 +61,7 @@ impl InterpreterDebug {
     }
 
     pub fn set_instructions(&mut self, instructions: &InstructionsParser) {
-        assert_eq!(self.imm_rom.len(), instructions.instructions.len());
+        assert!(instructions.instructions.len() <= self.imm_rom.len());
         for i in 0..instructions.instructions.len() {
             self.imm_rom[i] = instructions.get_raw(i).get_imm() as u32;
             let (rs2, rs1, rd) = instructions.get_raw(i).get_registers();
@@ -81,8 +81,8 @@ impl InterpreterDebug {
     }
 
     pub fn set_ram(&mut self, ram: &[u32]) {
-        assert_eq!(self.ram.len(), ram.len());
-        self.ram.copy_from_slice(ram);
+        self.ram.fill(0);
+        self.ram[..ram.len()].copy_from_slice(ram);
     }
 
     pub fn read_instructions(&mut self) {
-- 
2.43.0


From 880d8cbdbd3b40732a8ada6b6aaf588398494455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:53 +0000
Subject: [PATCH 11/18] hooks: ROM noise and mirror tampering behind
 cfg(verif_hooks)

---
 fhevm/src/verif_hooks.rs | 47 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/fhevm/src/verif_hooks.rs b/fhevm/src/verif_hooks.rs
index be167fc..f414f38 100644
--- a/fhevm/src/verif_hooks.rs
+++ b/fhevm/src/verif_hooks.rs
@@ -298,6 +298,53 @@ pub fn noise(
     }
 }
 
+/// log2 of the largest deviation in each encrypted ROM.
+pub fn rom_noise(
+    vm: &Interpreter<BE>,
+    module: &Module<BE>,
+    sk: &Sk,
+    scratch: &mut Scratch<BE>,
+) -> Vec<(&'static str, f64)> {
+    let mut one = |m: &Memory| {
+        let mut v = vec![0u32; m.size()];
+        m.decrypt(module, &mut v, sk, scratch);
+        m.noise(module, &v, sk, scratch)
+            .into_iter()
+            .fold(f64::NEG_INFINITY, f64::max)
+    };
+    vec![
+        ("imm", one(&vm.imm_rom)),
+        ("rs1", one(&vm.rs1_rom)),
+        ("rs2", one(&vm.rs2_rom)),
+        ("rd", one(&vm.rd_rom)),
+        ("rdu", one(&vm.rdu_rom)),
+        ("mu", one(&vm.mu_rom)),
+        ("pcu", one(&vm.pcu_rom)),
+    ]
+}
+
+/// Replaces the encrypted registers or RAM behind the back of the debug mirror.
+#[allow(clippy::too_many_arguments)]
+pub fn tamper(
+    vm: &mut Interpreter<BE>,
+    registers: Option<&[u32]>,
+    ram: Option<&[u32]>,
+    module: &Module<BE>,
+    sk: &Sk,
+    source_xa: &mut Source,
+    source_xe: &mut Source,
+    scratch: &mut Scratch<BE>,
+) {
+    if let Some(x) = registers {
+        vm.registers
+            .encrypt_sk(module, x, sk, source_xa, source_xe, scratch);
+    }
+    if let Some(x) = ram {
+        vm.ram
+            .encrypt_sk(module, x, sk, source_xa, source_xe, scratch);
+    }
+}
+
 /// Decrypts the encrypted instruction ROM, field by field.
 pub fn rom(
     vm: &Interpreter<BE>,
-- 
2.43.0


From 46e9189773d8d0027bd1c7c6171bb83e489ac0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:53 +0000
Subject: [PATCH 12/18] fix: noise of a partially filled memory ignores the
 previous content of the scratch space

---
 fhevm/src/memory.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fhevm/src/memory.rs b/fhevm/src/memory.rs
index 94c4da9..c928eb7 100644
--- a/fhevm/src/memory.rs
+++ b/fhevm/src/memory.rs
@@ -525,6 +525,8 @@ impl BitArray {
         let mut max_noise: f64 = f64::MIN;
 
         for (chunk, ct) in data.chunks(module.n()).zip(self.data.iter()) {
+            data_i64.fill(0);
+
             for (y, x) in data_i64.iter_mut().zip(chunk.iter()) {
                 *y = *x as i64;
             }
-- 
2.43.0


From 1411aec295d8f9bc320ccf331b590cb7df816655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:40 +0000
Subject: [PATCH 13/18] fix: finer gadget in the GLWE to LWE key switch, so
 that bootstrapping a set bit does not fail

The circuit bootstrapping of a bit tolerates an error of 1/16 on its input. With base 2^4
the key switch alone adds an error of standard deviation 0.0152, so one set bit in about
15000 was decoded as 0 (14 of 256000 fresh bits with the production parameters). Base 2^2
brings it to 0.0066, at the same security level and a negligible cost per cycle.
---
 fhevm/src/parameters.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fhevm/src/parameters.rs b/fhevm/src/parameters.rs
index d15cf2d..9a7b140 100644
--- a/fhevm/src/parameters.rs
+++ b/fhevm/src/parameters.rs
@@ -47,7 +47,7 @@ const BASE2K_CBT_BRK: u32 = 15;
 const BASE2K_CBT_ATK: u32 = 15;
 const BASE2K_CBT_TSK: u32 = 15;
 const BASE2K_GLWE_TO_GLWE_KSK: u32 = 13;
-const BASE2K_GLWE_TO_LWE_KSK: u32 = 4;
+const BASE2K_GLWE_TO_LWE_KSK: u32 = 2;
 const RANK: u32 = 2;
 const K_GLWE_PT: u32 = 2;
 
@@ -320,7 +320,10 @@ impl<B: Backend> CryptographicParameters<B> {
             base2k: self.base2k_glwe_to_lwe_ksk(),
             k: self.k_glwe_to_lwe_ksk(),
             rank_in: Rank(1),
-            dnum: Dnum(4),
+            dnum: self
+                .k_glwe_to_lwe_ksk()
+                .div_ceil(self.base2k_glwe_to_lwe_ksk())
+                .into(),
         }
     }
 
-- 
2.43.0


From 5a4fd8623f1b7181359a4c22c895e05d6f82934f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:58 +0000
Subject: [PATCH 14/18] fix: refuse SLLI and JALR words with undefined function
 codes

---
 fhevm/src/instructions/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fhevm/src/instructions/mod.rs b/fhevm/src/instructions/mod.rs
index a325c57..dad9a9f 100644
--- a/fhevm/src/instructions/mod.rs
+++ b/fhevm/src/instructions/mod.rs
@@ -954,7 +954,10 @@ impl Instruction {
                         0b100 => (RD_UPDATE::XORI, RAM_UPDATE::NONE, PC_UPDATE::NONE),
                         0b110 => (RD_UPDATE::ORI, RAM_UPDATE::NONE, PC_UPDATE::NONE),
                         0b111 => (RD_UPDATE::ANDI, RAM_UPDATE::NONE, PC_UPDATE::NONE),
-                        0b001 => (RD_UPDATE::SLLI, RAM_UPDATE::NONE, PC_UPDATE::NONE),
+                        0b001 => match self.get_funct7() {
+                            0b0000000 => (RD_UPDATE::SLLI, RAM_UPDATE::NONE, PC_UPDATE::NONE),
+                            _ => panic!("invalid funct7: {:032b}", self.0),
+                        },
                         0b101 => match self.get_funct7() {
                             0b0000000 => (RD_UPDATE::SRLI, RAM_UPDATE::NONE, PC_UPDATE::NONE),
                             0b0100000 => (RD_UPDATE::SRAI, RAM_UPDATE::NONE, PC_UPDATE::NONE),
@@ -970,7 +973,10 @@ impl Instruction {
                         0b101 => (RD_UPDATE::LHU, RAM_UPDATE::NONE, PC_UPDATE::NONE),
                         _ => panic!("invalid funct3: {:032b}", self.0),
                     },
-                    0b1100111 => (RD_UPDATE::JALR, RAM_UPDATE::NONE, PC_UPDATE::JALR),
+                    0b1100111 => match funct3 {
+                        0b000 => (RD_UPDATE::JALR, RAM_UPDATE::NONE, PC_UPDATE::JALR),
+                        _ => panic!("invalid funct3: {:032b}", self.0),
+                    },
                     _ => panic!("invalid instruction: {:032b}", self.0),
                 }
             }
-- 
2.43.0


From 59e1276c8c7f987ba14e401ed4f369f706c09f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:04 +0000
Subject: [PATCH 15/18] fix: refuse to encrypt instructions the encrypted VM
 does not implement

---
 fhevm/src/interpreter.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fhevm/src/interpreter.rs b/fhevm/src/interpreter.rs
index ec33ff9..2d999d0 100644
--- a/fhevm/src/interpreter.rs
+++ b/fhevm/src/interpreter.rs
@@ -294,6 +294,12 @@ impl<BE: Backend> Interpreter<BE> {
             data_ram_rs2[i] = rs2 as u32;
             data_ram_rd[i] = rd as u32;
             let (rdu, mu, pcu) = instructions.get_raw(i).get_opid();
+            assert!(
+                RD_UPDATE_RV32I_OP_LIST
+                    .iter()
+                    .any(|op| op.id() == rdu as u32),
+                "instruction {i} is not part of the RV32I instruction set"
+            );
             data_ram_rdu[i] = rdu as u32;
             data_ram_mu[i] = mu as u32;
             data_ram_pcu[i] = pcu as u32;
-- 
2.43.0


From 6ba7b402639393ae4e0def39edfd3166618bd5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:04 +0000
Subject: [PATCH 16/18] fix: refuse data longer than the memory it is encrypted
 into

---
 fhevm/src/memory.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fhevm/src/memory.rs b/fhevm/src/memory.rs
index c928eb7..634ee98 100644
--- a/fhevm/src/memory.rs
+++ b/fhevm/src/memory.rs
@@ -62,7 +62,7 @@ impl Memory {
         let size: usize = self.size;
         let ram_chunks: usize = self.bits.len();
 
-        assert!(data.len() / ram_chunks <= size);
+        assert!(data.len() <= size);
 
         let mut bits: Vec<u8> = vec![0u8; size];
 
@@ -90,7 +90,7 @@ impl Memory {
         let max_addr: usize = self.size;
         let ram_chunks: usize = self.bits.len();
 
-        assert!(data.len() / ram_chunks <= max_addr);
+        assert!(data.len() <= max_addr);
 
         let mut bits: Vec<u8> = vec![0u8; max_addr];
 
@@ -123,7 +123,7 @@ impl Memory {
         let max_addr: usize = self.size;
         let ram_chunks: usize = self.bits.len();
 
-        assert!(data.len() / ram_chunks <= max_addr);
+        assert!(data.len() <= max_addr);
 
         let mut bits: Vec<u8> = vec![0u8; max_addr];
         let mut noise: Vec<f64> = vec![0f64; self.bits.len()];
-- 
2.43.0


From ac0f95b31f98d966e985ea47660635b3fc259fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:50 +0000
Subject: [PATCH 17/18] fix: clear the debug mirror's program before it is
 replaced

---
 fhevm/src/debug.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/fhevm/src/debug.rs b/fhevm/src/debug.rs
index 8f7a694..27d9b7e 100644
--- a/fhevm/src/debug.rs
+++ b/fhevm/src/debug.rs
@@ -62,6 +62,17 @@ impl InterpreterDebug {
 
     pub fn set_instructions(&mut self, instructions: &InstructionsParser) {
         assert!(instructions.instructions.len() <= self.imm_rom.len());
+        for rom in [
+            &mut self.imm_rom,
+            &mut self.rs1_rom,
+            &mut self.rs2_rom,
+            &mut self.rd_rom,
+            &mut self.rdu_rom,
+            &mut self.mu_rom,
+            &mut self.pcu_rom,
+        ] {
+            rom.fill(0);
+        }
         for i in 0..instructions.instructions.len() {
             self.imm_rom[i] = instructions.get_raw(i).get_imm() as u32;
             let (rs2, rs1, rd) = instructions.get_raw(i).get_registers();
-- 
2.43.0


From d6d4942e6281fd2182038038c2abfd1934923629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:39 +0000
Subject: [PATCH 18/18] fix: reading a memory of a single word panicked

---
 fhevm/src/memory.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fhevm/src/memory.rs b/fhevm/src/memory.rs
index 634ee98..a9504fd 100644
--- a/fhevm/src/memory.rs
+++ b/fhevm/src/memory.rs
@@ -449,7 +449,8 @@ impl BitArray {
             data: (0..size.div_ceil(n))
                 .map(|_| GLWE::alloc_from_infos(infos))
                 .collect(),
-            retriever: GLWEBlindRetriever::alloc(infos, size),
+            // needs an accumulator even if there is a single word
+            retriever: GLWEBlindRetriever::alloc(infos, size.max(2)),
             bit_size: (usize::BITS - (size - 1).leading_zeros()) as usize,
         }
     }
-- 
2.43.0

