From 3c2ffab213bb62e6301b190765a6b4403551ff58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:42 +0000
Subject: [PATCH 01/27] verif: add guarded verification hooks (cfg zkevm_verif)

---
 .../src/generation/prover_input.rs            |   5 +
 evm_arithmetization/src/lib.rs                |   3 +
 evm_arithmetization/src/verif.rs              | 251 ++++++++++++++++++
 3 files changed, 259 insertions(+)
 create mode 100644 evm_arithmetization/src/verif.rs

diff --git a/evm_arithmetization/src/generation/prover_input.rs b/evm_arithmetization/src/generation/prover_input.rs
index 704e2f4..9c7f5ec 100644
--- a/evm_arithmetization/src/generation/prover_input.rs
+++ b/evm_arithmetization/src/generation/prover_input.rs
@@ -54,6 +54,11 @@ impl From<Vec<String>> for ProverInputFn {
 
 impl<F: RichField> GenerationState<F> {
     pub(crate) fn prover_input(&mut self, input_fn: &ProverInputFn) -> Result<U256, ProgramError> {
+        #[cfg(zkevm_verif)]
+        if let Some(input) = crate::verif::next_prover_input() {
+            return Ok(input);
+        }
+
         match input_fn.0[0].as_str() {
             "end_of_txns" => self.run_end_of_txns(),
             "trie_ptr" => self.run_trie_ptr(input_fn),
diff --git a/evm_arithmetization/src/lib.rs b/evm_arithmetization/src/lib.rs
index 9bc6021..e3d2974 100644
--- a/evm_arithmetization/src/lib.rs
+++ b/evm_arithmetization/src/lib.rs
@@ -249,6 +249,7 @@
 
 #![cfg_attr(docsrs, feature(doc_cfg))]
 #![allow(clippy::needless_range_loop)]
+#![allow(unexpected_cfgs)]
 #![allow(clippy::too_many_arguments)]
 #![allow(clippy::field_reassign_with_default)]
 #![feature(let_chains)]
@@ -286,6 +287,8 @@ pub mod extension_tower;
 pub mod testing_utils;
 pub mod tries;
 pub mod util;
+#[cfg(zkevm_verif)]
+pub mod verif;
 pub mod world;
 
 // Public definitions and re-exports
diff --git a/evm_arithmetization/src/verif.rs b/evm_arithmetization/src/verif.rs
new file mode 100644
index 0000000..e4ac859
--- /dev/null
+++ b/evm_arithmetization/src/verif.rs
@@ -0,0 +1,251 @@
+//! Verification hooks, only compiled with `--cfg zkevm_verif`.
+//!
+//! They expose read-only views of crate-private items (kernel constants,
+//! column layouts, STARK constraint evaluation, cross-table lookups) and a thin
+//! driver around the kernel [`Interpreter`], so that external checks can
+//! analyse the code actually used by the prover.
+
+use core::cell::RefCell;
+use core::mem::transmute;
+use std::collections::{HashMap, VecDeque};
+
+use anyhow::{anyhow, Result};
+use ethereum_types::U256;
+use plonky2::field::extension::FieldExtension;
+use plonky2::field::goldilocks_field::GoldilocksField as F;
+use plonky2::field::packed::PackedField;
+use starky::constraint_consumer::ConstraintConsumer;
+use starky::evaluation_frame::StarkEvaluationFrame;
+use starky::stark::Stark;
+
+use crate::all_stark::{all_cross_table_lookups, AllStark, Table};
+use crate::cpu::kernel::constants::evm_constants;
+use crate::cpu::kernel::interpreter::Interpreter;
+use crate::generation::state::State;
+use crate::memory::segments::Segment;
+use crate::witness::memory::MemoryAddress;
+
+const D: usize = 2;
+
+thread_local! {
+    static PROVER_INPUTS: RefCell<Option<VecDeque<U256>>> = const { RefCell::new(None) };
+}
+
+/// Replaces the nondeterministic prover inputs of the current thread by the
+/// given sequence. `None` restores the honest prover.
+pub fn set_prover_inputs(inputs: Option<Vec<U256>>) {
+    PROVER_INPUTS.with(|q| *q.borrow_mut() = inputs.map(VecDeque::from));
+}
+
+pub(crate) fn next_prover_input() -> Option<U256> {
+    PROVER_INPUTS.with(|q| q.borrow_mut().as_mut().and_then(VecDeque::pop_front))
+}
+
+/// The named constants available to the kernel assembly.
+pub fn kernel_constants() -> HashMap<String, U256> {
+    evm_constants()
+}
+
+/// `(name, unscaled value)` of all segments.
+pub fn segments() -> Vec<(String, usize, usize)> {
+    Segment::all()
+        .iter()
+        .map(|s| (format!("{s:?}"), s.unscale(), s.bit_range()))
+        .collect()
+}
+
+/// The column layouts of the tables, as `Debug` representations.
+pub fn column_maps() -> Vec<(&'static str, String)> {
+    vec![
+        ("cpu", format!("{:?}", crate::cpu::columns::COL_MAP)),
+        ("keccak_sponge", {
+            const N: usize = crate::keccak_sponge::columns::NUM_KECCAK_SPONGE_COLUMNS;
+            let idx: [usize; N] = core::array::from_fn(|i| i);
+            let view: crate::keccak_sponge::columns::KeccakSpongeColumnsView<usize> =
+                unsafe { transmute(idx) };
+            format!("{view:?}")
+        }),
+    ]
+}
+
+macro_rules! with_stark {
+    ($table:expr, $stark:ident => $body:expr) => {{
+        let all = AllStark::<F, D>::default();
+        match $table {
+            Table::Arithmetic => {
+                let $stark = &all.arithmetic_stark;
+                $body
+            }
+            Table::BytePacking => {
+                let $stark = &all.byte_packing_stark;
+                $body
+            }
+            Table::Cpu => {
+                let $stark = &all.cpu_stark;
+                $body
+            }
+            Table::Keccak => {
+                let $stark = &all.keccak_stark;
+                $body
+            }
+            Table::KeccakSponge => {
+                let $stark = &all.keccak_sponge_stark;
+                $body
+            }
+            Table::Logic => {
+                let $stark = &all.logic_stark;
+                $body
+            }
+            Table::Memory => {
+                let $stark = &all.memory_stark;
+                $body
+            }
+            Table::MemBefore => {
+                let $stark = &all.mem_before_stark;
+                $body
+            }
+            Table::MemAfter => {
+                let $stark = &all.mem_after_stark;
+                $body
+            }
+            #[cfg(feature = "cdk_erigon")]
+            _ => unimplemented!(),
+        }
+    }};
+}
+
+fn columns_of<FE: FieldExtension<2, BaseField = F>, S: Stark<F, D>>(_: &S) -> usize {
+    <S::EvaluationFrame<FE, FE, 2> as StarkEvaluationFrame<FE, FE>>::COLUMNS
+}
+
+fn eval_of<FE, S>(stark: &S, lv: &[FE], nv: &[FE], consumer: &mut ConstraintConsumer<FE>)
+where
+    FE: FieldExtension<2, BaseField = F> + PackedField<Scalar = FE>,
+    S: Stark<F, D>,
+{
+    let vars = S::EvaluationFrame::<FE, FE, 2>::from_values(lv, nv, &[]);
+    stark.eval_packed_generic(&vars, consumer)
+}
+
+/// The number of columns of a table.
+pub fn num_columns(table: Table) -> usize {
+    type FE = plonky2::field::extension::quadratic::QuadraticExtension<F>;
+    with_stark!(table, s => columns_of::<FE, _>(s))
+}
+
+/// Evaluates the constraints of a table on the given pair of rows.
+pub fn eval_constraints<FE>(
+    table: Table,
+    lv: &[FE],
+    nv: &[FE],
+    consumer: &mut ConstraintConsumer<FE>,
+) where
+    FE: FieldExtension<2, BaseField = F> + PackedField<Scalar = FE>,
+{
+    with_stark!(table, s => eval_of(s, lv, nv, consumer))
+}
+
+/// `Debug` representations of the lookups of a table.
+pub fn lookups(table: Table) -> Vec<String> {
+    with_stark!(table, s => s.lookups().iter().map(|l| format!("{l:?}")).collect())
+}
+
+/// `Debug` representations of all cross-table lookups.
+pub fn cross_table_lookups() -> Vec<String> {
+    all_cross_table_lookups::<F>()
+        .iter()
+        .map(|c| format!("{c:?}"))
+        .collect()
+}
+
+/// A driver around the kernel interpreter.
+pub struct Machine(Interpreter<F>);
+
+/// A snapshot of the CPU registers.
+#[derive(Clone, Debug)]
+pub struct Registers {
+    pub program_counter: usize,
+    pub is_kernel: bool,
+    pub context: usize,
+    pub gas_used: u64,
+    pub stack: Vec<U256>,
+}
+
+impl Machine {
+    pub fn new() -> Self {
+        Self(Interpreter::new(0, vec![], None))
+    }
+
+    pub fn set_memory(&mut self, context: usize, segment: usize, virt: usize, value: U256) {
+        self.0.generation_state.memory.set(
+            MemoryAddress {
+                context,
+                segment,
+                virt,
+            },
+            value,
+        )
+    }
+
+    pub fn get_memory(&self, context: usize, segment: usize, virt: usize) -> U256 {
+        self.0
+            .generation_state
+            .memory
+            .get_with_init(MemoryAddress {
+                context,
+                segment,
+                virt,
+            })
+    }
+
+    /// Sets the registers; the last stack element is the top of the stack.
+    pub fn set_registers(&mut self, regs: &Registers) {
+        for (i, &val) in regs.stack.iter().enumerate() {
+            self.set_memory(regs.context, Segment::Stack.unscale(), i, val);
+        }
+        let r = &mut self.0.generation_state.registers;
+        r.program_counter = regs.program_counter;
+        r.is_kernel = regs.is_kernel;
+        r.context = regs.context;
+        r.gas_used = regs.gas_used;
+        r.stack_len = regs.stack.len();
+        r.stack_top = regs.stack.last().copied().unwrap_or_default();
+        r.is_stack_top_read = false;
+        r.check_overflow = false;
+    }
+
+    pub fn registers(&self) -> Registers {
+        let r = self.0.generation_state.registers;
+        let mut stack: Vec<U256> = (0..r.stack_len.saturating_sub(1))
+            .map(|i| self.get_memory(r.context, Segment::Stack.unscale(), i))
+            .collect();
+        if r.stack_len > 0 {
+            stack.push(r.stack_top);
+        }
+        Registers {
+            program_counter: r.program_counter,
+            is_kernel: r.is_kernel,
+            context: r.context,
+            gas_used: r.gas_used,
+            stack,
+        }
+    }
+
+    pub fn program_counter(&self) -> (usize, bool, usize) {
+        let r = self.0.generation_state.registers;
+        (r.program_counter, r.is_kernel, r.context)
+    }
+
+    /// Performs a single CPU cycle.
+    pub fn step(&mut self) -> Result<()> {
+        self.0
+            .transition()
+            .map_err(|e| anyhow!("{}", format!("{e:?}").chars().take(300).collect::<String>()))
+    }
+}
+
+impl Default for Machine {
+    fn default() -> Self {
+        Self::new()
+    }
+}
-- 
2.43.0


From 89bd63fa3b44b07a5eeb756b4fc5ee16494e565d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:59 +0000
Subject: [PATCH 02/27] fix: check in the CTL that range check rows do not
 stand for arithmetic operations

A row of the arithmetic table with IS_RANGE_CHECK = 1 may hold any OPCODE_COL, so it
could be looked up by a CPU row executing ADD, MUL, etc. with an arbitrary output.
---
 .../src/arithmetic/arithmetic_stark.rs              | 13 ++++++++-----
 evm_arithmetization/src/cpu/cpu_stark.rs            |  7 +++++++
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/evm_arithmetization/src/arithmetic/arithmetic_stark.rs b/evm_arithmetization/src/arithmetic/arithmetic_stark.rs
index 2b7eb25..2493962 100644
--- a/evm_arithmetization/src/arithmetic/arithmetic_stark.rs
+++ b/evm_arithmetization/src/arithmetic/arithmetic_stark.rs
@@ -109,11 +109,14 @@ pub(crate) fn ctl_arithmetic_rows<F: Field>() -> TableWithColumns<F> {
     // by `regs`, where each element of `regs` is a range of columns
     // corresponding to a 256-bit input or output register (also `ops`
     // is used as the operation filter).
-    TableWithColumns::new(
-        *Table::Arithmetic,
-        cpu_arith_data_link(&all_combined_cols, &REGISTER_MAP),
-        filter,
-    )
+    let mut data = cpu_arith_data_link(&all_combined_cols, &REGISTER_MAP);
+    // A range check row only claims that its registers are range-checked, but its
+    // `OPCODE_COL` may hold any value, including the opcode of an arithmetic
+    // operation. Hence the CTL also checks that range checks, and only range
+    // checks, are looked up as such.
+    data.push(Column::single(columns::IS_RANGE_CHECK));
+
+    TableWithColumns::new(*Table::Arithmetic, data, filter)
 }
 
 /// Structure representing the `Arithmetic` STARK, which carries out all the
diff --git a/evm_arithmetization/src/cpu/cpu_stark.rs b/evm_arithmetization/src/cpu/cpu_stark.rs
index a0dd45e..224deb5 100644
--- a/evm_arithmetization/src/cpu/cpu_stark.rs
+++ b/evm_arithmetization/src/cpu/cpu_stark.rs
@@ -113,6 +113,13 @@ pub(crate) fn ctl_arithmetic_base_rows<F: Field>() -> TableWithColumns<F> {
     // (also `ops` is used as the operation filter). The list of
     // operations includes binary operations which will simply ignore
     // the third input.
+    // The last column tells apart the rows looking for a range check (prover
+    // inputs, syscalls and exceptions) from the actual arithmetic operations.
+    columns.push(Column::sum([
+        COL_MAP.op.push_prover_input,
+        COL_MAP.op.syscall,
+        COL_MAP.op.exception,
+    ]));
     let col_bit = Column::single(COL_MAP.opcode_bits[7]);
     TableWithColumns::new(
         *Table::Cpu,
-- 
2.43.0


From 00cd03f82f003db78e229fd44bf4a13cbf2e10bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:56 +0000
Subject: [PATCH 03/27] fix: constrain the quotient of a division by zero to be
 zero

With a zero denominator the DIV and SHR constraints used the denominator 1 and left the
remainder unreduced, so any quotient q with q <= numerator was accepted.
---
 evm_arithmetization/src/arithmetic/divmod.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/evm_arithmetization/src/arithmetic/divmod.rs b/evm_arithmetization/src/arithmetic/divmod.rs
index 30c7af8..c79020a 100644
--- a/evm_arithmetization/src/arithmetic/divmod.rs
+++ b/evm_arithmetization/src/arithmetic/divmod.rs
@@ -107,6 +107,13 @@ pub(crate) fn eval_packed_divmod_helper<P: PackedField>(
     };
     let rem = read_value(lv, rem_range);
 
+    // A zero denominator is replaced by 1 and the remainder isn't reduced for DIV
+    // and SHR, so the quotient must explicitly be zero. Its limbs are
+    // range-checked, hence it suffices to check their sum.
+    let quo_limb_sum = quo.into_iter().sum::<P>();
+    yield_constr
+        .constraint_transition(filter * nv[MODULAR_DIV_DENOM_IS_ZERO] * quo_limb_sum);
+
     let mut constr_poly = modular_constr_poly(lv, nv, yield_constr, filter, rem, den, quo);
 
     let input = num;
@@ -167,6 +174,13 @@ pub(crate) fn eval_ext_circuit_divmod_helper<F: RichField + Extendable<D>, const
     };
     let rem = read_value(lv, rem_range);
 
+    // A zero denominator is replaced by 1 and the remainder isn't reduced for DIV
+    // and SHR, so the quotient must explicitly be zero.
+    let quo_limb_sum = builder.add_many_extension(quo);
+    let t = builder.mul_extension(nv[MODULAR_DIV_DENOM_IS_ZERO], quo_limb_sum);
+    let t = builder.mul_extension(filter, t);
+    yield_constr.constraint_transition(builder, t);
+
     let mut constr_poly =
         modular_constr_poly_ext_circuit(lv, nv, builder, yield_constr, filter, rem, den, quo);
 
-- 
2.43.0


From 14f53e458c0d6de62f848a1c4fb218575dd5fa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:38 +0000
Subject: [PATCH 04/27] fix: constrain the shift factor to be zero for
 displacements of 2^32 and more

No lookup happens for such displacements, so the prover could choose the factor and hence
the result of SHL and SHR.
---
 evm_arithmetization/src/cpu/shift.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/evm_arithmetization/src/cpu/shift.rs b/evm_arithmetization/src/cpu/shift.rs
index 12ed18b..934f5a9 100644
--- a/evm_arithmetization/src/cpu/shift.rs
+++ b/evm_arithmetization/src/cpu/shift.rs
@@ -47,6 +47,12 @@ pub(crate) fn eval_packed<P: PackedField>(
     yield_constr.constraint(is_shift * (two_exp.addr_segment - shift_table_segment));
     yield_constr.constraint(is_shift * (two_exp.addr_virtual - displacement.value[0]));
 
+    // When the shift displacement is >= 2^32, there is no lookup and the shifting
+    // factor must be zero.
+    for limb in two_exp.value {
+        yield_constr.constraint(is_shift * (P::ONES - high_limbs_are_zero) * limb);
+    }
+
     // Other channels must be unused
     for chan in &lv.mem_channels[3..NUM_GP_CHANNELS] {
         yield_constr.constraint(is_shift * chan.used); // channel is not used
@@ -115,6 +121,15 @@ pub(crate) fn eval_ext_circuit<F: RichField + Extendable<D>, const D: usize>(
     let t = builder.mul_extension(is_shift, t);
     yield_constr.constraint(builder, t);
 
+    // When the shift displacement is >= 2^32, there is no lookup and the shifting
+    // factor must be zero.
+    let high_limbs_are_not_zero = builder.sub_extension(one, high_limbs_are_zero);
+    let filter = builder.mul_extension(is_shift, high_limbs_are_not_zero);
+    for limb in two_exp.value {
+        let t = builder.mul_extension(filter, limb);
+        yield_constr.constraint(builder, t);
+    }
+
     // Other channels must be unused
     for chan in &lv.mem_channels[3..NUM_GP_CHANNELS] {
         let t = builder.mul_extension(is_shift, chan.used);
-- 
2.43.0


From e5620e5823a8a0c5cdf475642683f2d2a5fe489e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 05/27] fix: constrain MemAfter to hold every final value,
 once, of the contexts that are not pruned

---
 evm_arithmetization/src/memory/columns.rs     |  12 +-
 .../src/memory/memory_stark.rs                | 133 +++++++++++++++---
 2 files changed, 122 insertions(+), 23 deletions(-)

diff --git a/evm_arithmetization/src/memory/columns.rs b/evm_arithmetization/src/memory/columns.rs
index 10fb75b..9ecae8a 100644
--- a/evm_arithmetization/src/memory/columns.rs
+++ b/evm_arithmetization/src/memory/columns.rs
@@ -72,14 +72,24 @@ pub(crate) struct MemoryColumnsView<T> {
     /// `addr_context` + 1 is in `state_contexts`.
     pub is_stale: T,
 
+    /// Flag indicating whether the address of this row is accessed by an actual
+    /// memory operation, in this row or in a previous one.
+    pub address_in_use: T,
+
     /// Flag indicating that a value can potentially be propagated.
-    /// Contains `filter * address_changed * is_not_stale`.
+    /// Contains `address_in_use * address_changed * is_not_stale`.
     pub maybe_in_mem_after: T,
 
     /// Filter for the `MemAfter` CTL. Is equal to `MAYBE_IN_MEM_AFTER` if
     /// segment is preinitialized or the value is non-zero, is 0 otherwise.
     pub mem_after_filter: T,
 
+    /// Used to check that `MEM_AFTER_FILTER` is only different from
+    /// `MAYBE_IN_MEM_AFTER` if the segment is not preinitialized: contains the
+    /// quotient of their difference by the `preinitialized_segments` of the
+    /// previous row.
+    pub mem_after_aux: T,
+
     /// We use a range check to enforce the ordering.
     pub range_check: T,
     /// The counter column (used for the range check) starts from 0 and
diff --git a/evm_arithmetization/src/memory/memory_stark.rs b/evm_arithmetization/src/memory/memory_stark.rs
index 357e720..8e60ffd 100644
--- a/evm_arithmetization/src/memory/memory_stark.rs
+++ b/evm_arithmetization/src/memory/memory_stark.rs
@@ -232,7 +232,8 @@ impl<F: RichField + Extendable<D>, const D: usize> MemoryStark<F, D> {
     /// Generates the `counter`, `range_check` and `frequencies` columns, given
     /// a trace in column-major form.
     /// Also generates the `state_contexts`, `state_contexts_frequencies`,
-    /// `maybe_in_mem_after` and `mem_after_filter` columns.
+    /// `address_in_use`, `maybe_in_mem_after`, `mem_after_filter` and
+    /// `mem_after_aux` columns.
     fn generate_trace_col_major(trace_col_vecs: &mut [Vec<F>]) {
         let height = trace_col_vecs[0].len();
         trace_col_vecs[MEMORY_COL_MAP.counter] =
@@ -253,28 +254,42 @@ impl<F: RichField + Extendable<D>, const D: usize> MemoryStark<F, D> {
                 }
             }
 
+            let address_changed = |row: usize| {
+                trace_col_vecs[MEMORY_COL_MAP.context_first_change][row].is_one()
+                    || trace_col_vecs[MEMORY_COL_MAP.segment_first_change][row].is_one()
+                    || trace_col_vecs[MEMORY_COL_MAP.virtual_first_change][row].is_one()
+            };
+            let is_last_access = address_changed(i);
+            let is_in_use = trace_col_vecs[MEMORY_COL_MAP.filter][i].is_one()
+                || (i > 0
+                    && !address_changed(i - 1)
+                    && trace_col_vecs[MEMORY_COL_MAP.address_in_use][i - 1].is_one());
+            trace_col_vecs[MEMORY_COL_MAP.address_in_use][i] = F::from_bool(is_in_use);
+
             let addr_ctx = trace_col_vecs[MEMORY_COL_MAP.addr_context][i];
             let addr_ctx_usize = addr_ctx.to_canonical_u64() as usize;
             if addr_ctx + F::ONE == trace_col_vecs[MEMORY_COL_MAP.stale_contexts][addr_ctx_usize] {
                 trace_col_vecs[MEMORY_COL_MAP.is_stale][i] = F::ONE;
                 trace_col_vecs[MEMORY_COL_MAP.stale_context_frequencies][addr_ctx_usize] += F::ONE;
-            } else if trace_col_vecs[MEMORY_COL_MAP.filter][i].is_one()
-                && (trace_col_vecs[MEMORY_COL_MAP.context_first_change][i].is_one()
-                    || trace_col_vecs[MEMORY_COL_MAP.segment_first_change][i].is_one()
-                    || trace_col_vecs[MEMORY_COL_MAP.virtual_first_change][i].is_one())
-            {
-                // `maybe_in_mem_after = filter * address_changed * (1 - is_stale)`
+            } else if is_in_use && is_last_access {
+                // `maybe_in_mem_after = address_in_use * address_changed * (1 - is_stale)`
                 trace_col_vecs[MEMORY_COL_MAP.maybe_in_mem_after][i] = F::ONE;
 
                 let addr_segment = trace_col_vecs[MEMORY_COL_MAP.addr_segment][i];
                 let is_non_zero_value = (0..VALUE_LIMBS)
                     .any(|limb| trace_col_vecs[MEMORY_COL_MAP.value_limbs[limb]][i].is_nonzero());
-                // We filter out zero values in non-preinitialized segments.
-                if is_non_zero_value
+                // We filter out zero values in non-preinitialized segments, except in the
+                // first row, whose segment isn't checked.
+                if i == 0
+                    || is_non_zero_value
                     || PREINITIALIZED_SEGMENTS_INDICES
                         .contains(&(addr_segment.to_canonical_u64() as usize))
                 {
                     trace_col_vecs[MEMORY_COL_MAP.mem_after_filter][i] = F::ONE;
+                } else {
+                    trace_col_vecs[MEMORY_COL_MAP.mem_after_aux][i] = -trace_col_vecs
+                        [MEMORY_COL_MAP.preinitialized_segments][i - 1]
+                        .inverse();
                 }
             }
         }
@@ -492,7 +507,10 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
         let addr_virtual = lv.addr_virtual;
         let value_limbs = lv.value_limbs;
         let timestamp_inv = lv.timestamp_inv;
+        let stale_contexts = lv.stale_contexts;
+        let is_pruned = lv.is_pruned;
         let is_stale = lv.is_stale;
+        let address_in_use = lv.address_in_use;
         let maybe_in_mem_after = lv.maybe_in_mem_after;
         let mem_after_filter = lv.mem_after_filter;
         let initialize_aux = lv.initialize_aux;
@@ -595,22 +613,47 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
             yield_constr.constraint_transition(initialize_aux * next_values_limbs[i]);
         }
 
-        // Validate `maybe_in_mem_after`.
+        // `is_pruned` must be binary, and set if `stale_contexts` is not zero: only
+        // pruned contexts are stale.
+        yield_constr.constraint(is_pruned * (is_pruned - P::ONES));
+        yield_constr.constraint(stale_contexts * (is_pruned - P::ONES));
+
+        // `is_stale` must be binary.
+        yield_constr.constraint(is_stale * (is_stale - P::ONES));
+
+        // Validate `address_in_use`. Dummy rows after an actual operation at the same
+        // address don't prevent its value from being propagated.
+        yield_constr.constraint_first_row(address_in_use - filter);
         yield_constr.constraint_transition(
-            maybe_in_mem_after + filter * not_address_unchanged * (is_stale - P::ONES),
+            nv.address_in_use
+                - nv.filter
+                - (P::ONES - nv.filter) * address_unchanged * address_in_use,
+        );
+        // The last row is padding.
+        yield_constr.constraint_last_row(address_in_use);
+
+        // Validate `maybe_in_mem_after`.
+        yield_constr.constraint(
+            maybe_in_mem_after + address_in_use * not_address_unchanged * (is_stale - P::ONES),
         );
 
         // `mem_after_filter` must be binary.
         yield_constr.constraint(mem_after_filter * (mem_after_filter - P::ONES));
 
-        // `mem_after_filter` is equal to `maybe_in_mem_after` if:
-        // - segment is not preinitialized OR
+        // `mem_after_filter` is only set if `maybe_in_mem_after` is, and it is equal to
+        // `maybe_in_mem_after` if:
+        // - segment is preinitialized OR
         // - value is not zero.
+        yield_constr.constraint(mem_after_filter * (maybe_in_mem_after - P::ONES));
         for i in 0..VALUE_LIMBS {
-            yield_constr.constraint(
-                (mem_after_filter - maybe_in_mem_after) * preinitialized_segments * value_limbs[i],
-            );
+            yield_constr.constraint((mem_after_filter - maybe_in_mem_after) * value_limbs[i]);
         }
+        yield_constr.constraint_first_row(mem_after_filter - maybe_in_mem_after);
+        yield_constr.constraint_transition(
+            nv.mem_after_filter
+                - nv.maybe_in_mem_after
+                - nv.mem_after_aux * preinitialized_segments,
+        );
 
         // Validate timestamp_inv. Since it's used as a CTL filter, its value must be
         // checked.
@@ -644,7 +687,10 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
         let value_limbs = lv.value_limbs;
         let timestamp = lv.timestamp;
         let timestamp_inv = lv.timestamp_inv;
+        let stale_contexts = lv.stale_contexts;
+        let is_pruned = lv.is_pruned;
         let is_stale = lv.is_stale;
+        let address_in_use = lv.address_in_use;
         let maybe_in_mem_after = lv.maybe_in_mem_after;
         let mem_after_filter = lv.mem_after_filter;
         let initialize_aux = lv.initialize_aux;
@@ -810,12 +856,43 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
             yield_constr.constraint_transition(builder, zero_init_constraint);
         }
 
+        // `is_pruned` must be binary, and set if `stale_contexts` is not zero: only
+        // pruned contexts are stale.
+        {
+            let constr = builder.mul_sub_extension(is_pruned, is_pruned, is_pruned);
+            yield_constr.constraint(builder, constr);
+            let constr = builder.mul_sub_extension(stale_contexts, is_pruned, stale_contexts);
+            yield_constr.constraint(builder, constr);
+        }
+
+        // `is_stale` must be binary.
+        {
+            let constr = builder.mul_sub_extension(is_stale, is_stale, is_stale);
+            yield_constr.constraint(builder, constr);
+        }
+
+        // Validate `address_in_use`. Dummy rows after an actual operation at the same
+        // address don't prevent its value from being propagated.
+        {
+            let constr = builder.sub_extension(address_in_use, filter);
+            yield_constr.constraint_first_row(builder, constr);
+
+            let was_in_use = builder.mul_extension(address_unchanged, address_in_use);
+            let prod = builder.mul_sub_extension(nv.filter, was_in_use, was_in_use);
+            let constr = builder.sub_extension(nv.address_in_use, nv.filter);
+            let constr = builder.add_extension(constr, prod);
+            yield_constr.constraint_transition(builder, constr);
+
+            // The last row is padding.
+            yield_constr.constraint_last_row(builder, address_in_use);
+        }
+
         // Validate `maybe_in_mem_after`.
         {
-            let rhs = builder.mul_extension(filter, not_address_unchanged);
+            let rhs = builder.mul_extension(address_in_use, not_address_unchanged);
             let rhs = builder.mul_sub_extension(rhs, is_stale, rhs);
             let constr = builder.add_extension(maybe_in_mem_after, rhs);
-            yield_constr.constraint_transition(builder, constr);
+            yield_constr.constraint(builder, constr);
         }
 
         // `mem_after_filter` must be binary.
@@ -825,15 +902,27 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
             yield_constr.constraint(builder, constr);
         }
 
-        // `mem_after_filter` is equal to `maybe_in_mem_after` if:
-        // - segment is not preinitialized OR
+        // `mem_after_filter` is only set if `maybe_in_mem_after` is, and it is equal to
+        // `maybe_in_mem_after` if:
+        // - segment is preinitialized OR
         // - value is not zero.
+        {
+            let constr =
+                builder.mul_sub_extension(mem_after_filter, maybe_in_mem_after, mem_after_filter);
+            yield_constr.constraint(builder, constr);
+        }
         let mem_after_filter_diff = builder.sub_extension(mem_after_filter, maybe_in_mem_after);
         for i in 0..VALUE_LIMBS {
-            let prod = builder.mul_extension(preinitialized_segments, value_limbs[i]);
-            let constr = builder.mul_extension(mem_after_filter_diff, prod);
+            let constr = builder.mul_extension(mem_after_filter_diff, value_limbs[i]);
             yield_constr.constraint(builder, constr);
         }
+        yield_constr.constraint_first_row(builder, mem_after_filter_diff);
+        {
+            let next_diff = builder.sub_extension(nv.mem_after_filter, nv.maybe_in_mem_after);
+            let prod = builder.mul_extension(nv.mem_after_aux, preinitialized_segments);
+            let constr = builder.sub_extension(next_diff, prod);
+            yield_constr.constraint_transition(builder, constr);
+        }
 
         // Validate timestamp_inv. Since it's used as a CTL filter, its value must be
         // checked.
-- 
2.43.0


From a354a4099a669e4d2d51f81d39c069799ae5d67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:31 +0000
Subject: [PATCH 06/27] fix: tie the kind of an arithmetic operation to the CPU
 flag that looks it up

---
 .../src/arithmetic/arithmetic_stark.rs        | 22 ++++++++++++++++---
 evm_arithmetization/src/cpu/cpu_stark.rs      | 22 +++++++++++++------
 2 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/evm_arithmetization/src/arithmetic/arithmetic_stark.rs b/evm_arithmetization/src/arithmetic/arithmetic_stark.rs
index 2493962..754bd6f 100644
--- a/evm_arithmetization/src/arithmetic/arithmetic_stark.rs
+++ b/evm_arithmetization/src/arithmetic/arithmetic_stark.rs
@@ -112,9 +112,25 @@ pub(crate) fn ctl_arithmetic_rows<F: Field>() -> TableWithColumns<F> {
     let mut data = cpu_arith_data_link(&all_combined_cols, &REGISTER_MAP);
     // A range check row only claims that its registers are range-checked, but its
     // `OPCODE_COL` may hold any value, including the opcode of an arithmetic
-    // operation. Hence the CTL also checks that range checks, and only range
-    // checks, are looked up as such.
-    data.push(Column::single(columns::IS_RANGE_CHECK));
+    // operation. Moreover, the flags of the CPU that send a row here do not
+    // restrict its opcode. Hence the CTL also checks the kind of the operation,
+    // see `ctl_arithmetic_base_rows` for the CPU side:
+    // binary operations (0), range checks (1), ternary operations (2), shifts (3)
+    // and BN254 operations (4).
+    data.push(Column::linear_combination(
+        [
+            (columns::IS_RANGE_CHECK, 1),
+            (columns::IS_ADDMOD, 2),
+            (columns::IS_SUBMOD, 2),
+            (columns::IS_MULMOD, 2),
+            (columns::IS_SHL, 3),
+            (columns::IS_SHR, 3),
+            (columns::IS_ADDFP254, 4),
+            (columns::IS_MULFP254, 4),
+            (columns::IS_SUBFP254, 4),
+        ]
+        .map(|(col, kind)| (col, F::from_canonical_u8(kind))),
+    ));
 
     TableWithColumns::new(*Table::Arithmetic, data, filter)
 }
diff --git a/evm_arithmetization/src/cpu/cpu_stark.rs b/evm_arithmetization/src/cpu/cpu_stark.rs
index 224deb5..363db39 100644
--- a/evm_arithmetization/src/cpu/cpu_stark.rs
+++ b/evm_arithmetization/src/cpu/cpu_stark.rs
@@ -113,13 +113,21 @@ pub(crate) fn ctl_arithmetic_base_rows<F: Field>() -> TableWithColumns<F> {
     // (also `ops` is used as the operation filter). The list of
     // operations includes binary operations which will simply ignore
     // the third input.
-    // The last column tells apart the rows looking for a range check (prover
-    // inputs, syscalls and exceptions) from the actual arithmetic operations.
-    columns.push(Column::sum([
-        COL_MAP.op.push_prover_input,
-        COL_MAP.op.syscall,
-        COL_MAP.op.exception,
-    ]));
+    // The last column is the kind of the operation: the decoding of the opcode
+    // does not tell apart the operations proven in the arithmetic table.
+    // Prover inputs, syscalls and exceptions look for a range check.
+    columns.push(Column::linear_combination(
+        [
+            (COL_MAP.op.binary_op, 0),
+            (COL_MAP.op.push_prover_input, 1),
+            (COL_MAP.op.syscall, 1),
+            (COL_MAP.op.exception, 1),
+            (COL_MAP.op.ternary_op, 2),
+            (COL_MAP.op.shift, 3),
+            (COL_MAP.op.fp254_op, 4),
+        ]
+        .map(|(col, kind)| (col, F::from_canonical_u8(kind))),
+    ));
     let col_bit = Column::single(COL_MAP.opcode_bits[7]);
     TableWithColumns::new(
         *Table::Cpu,
-- 
2.43.0


From ba53a052d4ea250bb925d295c67ff60cbca7bd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:31 +0000
Subject: [PATCH 07/27] fix: constrain pc, kernel mode and the first row for
 PUSH, MSTORE_32BYTES/MLOAD_32BYTES and jumps

---
 evm_arithmetization/src/cpu/control_flow.rs | 56 ++++++++++++++++++++-
 1 file changed, 55 insertions(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/cpu/control_flow.rs b/evm_arithmetization/src/cpu/control_flow.rs
index 0aa1a30..62e802d 100644
--- a/evm_arithmetization/src/cpu/control_flow.rs
+++ b/evm_arithmetization/src/cpu/control_flow.rs
@@ -8,7 +8,7 @@ use starky::constraint_consumer::{ConstraintConsumer, RecursiveConstraintConsume
 use crate::cpu::columns::{CpuColumnsView, COL_MAP};
 use crate::cpu::kernel::aggregator::KERNEL;
 
-const NATIVE_INST_LEN: usize = if cfg!(feature = "cdk_erigon") { 13 } else { 12 };
+const NATIVE_INST_LEN: usize = if cfg!(feature = "cdk_erigon") { 14 } else { 13 };
 
 const NATIVE_INSTRUCTIONS: [usize; NATIVE_INST_LEN] = [
     COL_MAP.op.binary_op,
@@ -27,6 +27,7 @@ const NATIVE_INSTRUCTIONS: [usize; NATIVE_INST_LEN] = [
     // not PUSH (need to increment by more than 1)
     COL_MAP.op.dup_swap,
     COL_MAP.op.context_op,
+    COL_MAP.op.m_op_32bytes,
     // not EXIT_KERNEL (performs a jump)
     COL_MAP.op.m_op_general,
     // not SYSCALL (performs a jump)
@@ -82,6 +83,23 @@ pub(crate) fn eval_packed_generic<P: PackedField>(
     );
     yield_constr.constraint_transition(is_prover_input * (lv.is_kernel_mode - nv.is_kernel_mode));
 
+    // Same for PUSH, which skips its `opcode_bits[0..5] + 1` bytes of data.
+    let is_push: P = lv.op.push_prover_input * (P::ONES - lv.opcode_bits[7]);
+    let push_len: P = lv.opcode_bits[..5]
+        .iter()
+        .enumerate()
+        .map(|(i, &bit)| bit * P::Scalar::from_canonical_u64(1 << i))
+        .sum::<P>()
+        + P::ONES;
+    yield_constr.constraint_transition(
+        is_push * (lv.program_counter - nv.program_counter + P::ONES + push_len),
+    );
+    yield_constr.constraint_transition(is_push * (lv.is_kernel_mode - nv.is_kernel_mode));
+
+    // Jumps set the program counter (see the `jumps` module) but keep the kernel
+    // flag.
+    yield_constr.constraint_transition(lv.op.jumps * (lv.is_kernel_mode - nv.is_kernel_mode));
+
     // Check the helper value in the general columns. We do not need to enforce that
     // it is set to 0 if the operation is a `PROVER_INPUT`, as the latter is a
     // kernel-only instruction. This is enforced in the `decode` module.
@@ -99,6 +117,12 @@ pub(crate) fn eval_packed_generic<P: PackedField>(
     yield_constr.constraint_transition(is_last_noncpu_cycle * pc_diff);
     yield_constr.constraint_transition(is_last_noncpu_cycle * (nv.is_kernel_mode - P::ONES));
     yield_constr.constraint_transition(is_last_noncpu_cycle * nv.stack_len);
+
+    // The first row is the entry point of the kernel, in kernel mode. No
+    // instruction before it constrains the channel holding the top of the stack.
+    yield_constr.constraint_first_row(lv.program_counter - get_start_pc::<P::Scalar>());
+    yield_constr.constraint_first_row(lv.is_kernel_mode - P::ONES);
+    yield_constr.constraint_first_row(lv.mem_channels[0].used);
 }
 
 /// Circuit version of `eval_packed`.
@@ -145,6 +169,25 @@ pub(crate) fn eval_ext_circuit<F: RichField + Extendable<D>, const D: usize>(
         yield_constr.constraint_transition(builder, pc_constr);
         let kernel_constr = builder.mul_extension(is_prover_input, kernel_diff);
         yield_constr.constraint_transition(builder, kernel_constr);
+
+        // Same for PUSH, which skips its `opcode_bits[0..5] + 1` bytes of data.
+        let is_push = builder.sub_extension(lv.op.push_prover_input, is_prover_input);
+        let push_len = lv.opcode_bits[..5].iter().enumerate().fold(
+            builder.one_extension(),
+            |cumul, (i, &bit)| {
+                builder.mul_const_add_extension(F::from_canonical_u64(1 << i), bit, cumul)
+            },
+        );
+        let push_pc_diff = builder.add_extension(pc_diff, push_len);
+        let pc_constr = builder.mul_add_extension(is_push, push_pc_diff, is_push);
+        yield_constr.constraint_transition(builder, pc_constr);
+        let kernel_constr = builder.mul_extension(is_push, kernel_diff);
+        yield_constr.constraint_transition(builder, kernel_constr);
+
+        // Jumps set the program counter (see the `jumps` module) but keep the kernel
+        // flag.
+        let kernel_constr = builder.mul_extension(lv.op.jumps, kernel_diff);
+        yield_constr.constraint_transition(builder, kernel_constr);
     }
 
     // Check the helper value in the general columns. We do not need to enforce that
@@ -184,4 +227,15 @@ pub(crate) fn eval_ext_circuit<F: RichField + Extendable<D>, const D: usize>(
         let kernel_constr = builder.mul_extension(is_last_noncpu_cycle, nv.stack_len);
         yield_constr.constraint_transition(builder, kernel_constr);
     }
+
+    // The first row is the entry point of the kernel, in kernel mode. No
+    // instruction before it constrains the channel holding the top of the stack.
+    {
+        let main = builder.constant_extension(get_start_pc::<F>().into());
+        let pc_diff = builder.sub_extension(lv.program_counter, main);
+        yield_constr.constraint_first_row(builder, pc_diff);
+        let kernel_constr = builder.sub_extension(lv.is_kernel_mode, one);
+        yield_constr.constraint_first_row(builder, kernel_constr);
+        yield_constr.constraint_first_row(builder, lv.mem_channels[0].used);
+    }
 }
-- 
2.43.0


From 54585e05028ab9e1ac4ff566d3a275a95ee43e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:32 +0000
Subject: [PATCH 08/27] fix: constrain the memory channels and stack accesses
 of every CPU operation

---
 evm_arithmetization/src/cpu/contextops.rs | 28 +++++++++++++++++++
 evm_arithmetization/src/cpu/halt.rs       |  5 ++++
 evm_arithmetization/src/cpu/jumps.rs      | 33 ++++++++++++++++++++++
 evm_arithmetization/src/cpu/memio.rs      | 28 +++++++++++++++++++
 evm_arithmetization/src/cpu/stack.rs      | 34 +++++++++++++++++++----
 5 files changed, 123 insertions(+), 5 deletions(-)

diff --git a/evm_arithmetization/src/cpu/contextops.rs b/evm_arithmetization/src/cpu/contextops.rs
index 11ffe0d..49f3ab8 100644
--- a/evm_arithmetization/src/cpu/contextops.rs
+++ b/evm_arithmetization/src/cpu/contextops.rs
@@ -296,6 +296,7 @@ pub(crate) fn eval_packed<P: PackedField>(
     yield_constr.constraint(
         filter * (stack_len * lv.general.stack().stack_inv - lv.general.stack().stack_inv_aux),
     );
+    yield_constr.constraint(filter * stack_len * (lv.general.stack().stack_inv_aux - P::ONES));
     // Enable or disable the channel.
     yield_constr.constraint(filter * (lv.general.stack().stack_inv_aux - channel.used));
     let new_filter = filter * lv.general.stack().stack_inv_aux;
@@ -311,6 +312,13 @@ pub(crate) fn eval_packed<P: PackedField>(
     // The address is one less than stack_len.
     let addr_virtual = stack_len - P::ONES;
     yield_constr.constraint(new_filter * (channel.addr_virtual - addr_virtual));
+    // `get_context` writes the previous top of the stack.
+    let filter_get = filter * (P::ONES - lv.opcode_bits[0]);
+    for (&limb_write, &limb_top) in channel.value.iter().zip(lv.mem_channels[0].value.iter()) {
+        yield_constr.constraint(filter_get * (limb_write - limb_top));
+    }
+    // The partial channel is unused.
+    yield_constr.constraint(filter * lv.partial_channel.used);
 }
 
 /// Circuit version of èval_packed`.
@@ -345,6 +353,11 @@ pub(crate) fn eval_ext_circuit<F: RichField + Extendable<D>, const D: usize>(
         let constr = builder.mul_extension(filter, diff);
         yield_constr.constraint(builder, constr);
     }
+    {
+        let constr = builder.mul_extension(filter, stack_len);
+        let constr = builder.mul_sub_extension(constr, lv.general.stack().stack_inv_aux, constr);
+        yield_constr.constraint(builder, constr);
+    }
     // Enable or disable the channel.
     {
         let diff = builder.sub_extension(lv.general.stack().stack_inv_aux, channel.used);
@@ -380,4 +393,19 @@ pub(crate) fn eval_ext_circuit<F: RichField + Extendable<D>, const D: usize>(
         let constr = builder.mul_extension(new_filter, diff);
         yield_constr.constraint(builder, constr);
     }
+    // `get_context` writes the previous top of the stack.
+    {
+        let prod = builder.mul_extension(filter, lv.opcode_bits[0]);
+        let filter_get = builder.sub_extension(filter, prod);
+        for (&limb_write, &limb_top) in channel.value.iter().zip(lv.mem_channels[0].value.iter()) {
+            let diff = builder.sub_extension(limb_write, limb_top);
+            let constr = builder.mul_extension(filter_get, diff);
+            yield_constr.constraint(builder, constr);
+        }
+    }
+    // The partial channel is unused.
+    {
+        let constr = builder.mul_extension(filter, lv.partial_channel.used);
+        yield_constr.constraint(builder, constr);
+    }
 }
diff --git a/evm_arithmetization/src/cpu/halt.rs b/evm_arithmetization/src/cpu/halt.rs
index 32e46fc..25f17c4 100644
--- a/evm_arithmetization/src/cpu/halt.rs
+++ b/evm_arithmetization/src/cpu/halt.rs
@@ -36,6 +36,7 @@ pub(crate) fn eval_packed<P: PackedField>(
         let channel = lv.mem_channels[i];
         yield_constr.constraint(halt_state * channel.used);
     }
+    yield_constr.constraint(halt_state * lv.partial_channel.used);
 
     // The last row must be a dummy padding row.
     yield_constr.constraint_last_row(halt_state - P::ONES);
@@ -81,6 +82,10 @@ pub(crate) fn eval_ext_circuit<F: RichField + Extendable<D>, const D: usize>(
         let constr = builder.mul_extension(halt_state, channel.used);
         yield_constr.constraint(builder, constr);
     }
+    {
+        let constr = builder.mul_extension(halt_state, lv.partial_channel.used);
+        yield_constr.constraint(builder, constr);
+    }
 
     // The last row must be a dummy padding row.
     {
diff --git a/evm_arithmetization/src/cpu/jumps.rs b/evm_arithmetization/src/cpu/jumps.rs
index c100c4f..0c684b0 100644
--- a/evm_arithmetization/src/cpu/jumps.rs
+++ b/evm_arithmetization/src/cpu/jumps.rs
@@ -157,6 +157,18 @@ pub(crate) fn eval_packed_jump_jumpi<P: PackedField>(
 
     // Channel 1 is unused by the `JUMP` instruction.
     yield_constr.constraint(is_jump * lv.mem_channels[1].used);
+    // `JUMPI` reads its condition, the second stack element, in channel 1.
+    let cond_channel = lv.mem_channels[1];
+    yield_constr.constraint(is_jumpi * (cond_channel.used - P::ONES));
+    yield_constr.constraint(is_jumpi * (cond_channel.is_read - P::ONES));
+    yield_constr.constraint(is_jumpi * (cond_channel.addr_context - lv.context));
+    yield_constr.constraint(
+        is_jumpi
+            * (cond_channel.addr_segment
+                - P::Scalar::from_canonical_usize(Segment::Stack.unscale())),
+    );
+    let cond_addr_virtual = lv.stack_len - P::Scalar::from_canonical_u64(2);
+    yield_constr.constraint(is_jumpi * (cond_channel.addr_virtual - cond_addr_virtual));
 
     // Update stack length.
     yield_constr.constraint_transition(is_jump * (nv.stack_len - lv.stack_len + P::ONES));
@@ -354,6 +366,27 @@ pub(crate) fn eval_ext_circuit_jump_jumpi<F: RichField + Extendable<D>, const D:
         let constr = builder.mul_extension(is_jump, lv.mem_channels[1].used);
         yield_constr.constraint(builder, constr);
     }
+    // `JUMPI` reads its condition, the second stack element, in channel 1.
+    {
+        let cond_channel = lv.mem_channels[1];
+        let constr = builder.mul_sub_extension(is_jumpi, cond_channel.used, is_jumpi);
+        yield_constr.constraint(builder, constr);
+        let constr = builder.mul_sub_extension(is_jumpi, cond_channel.is_read, is_jumpi);
+        yield_constr.constraint(builder, constr);
+        let diff = builder.sub_extension(cond_channel.addr_context, lv.context);
+        let constr = builder.mul_extension(is_jumpi, diff);
+        yield_constr.constraint(builder, constr);
+        let diff = builder.add_const_extension(
+            cond_channel.addr_segment,
+            -F::from_canonical_usize(Segment::Stack.unscale()),
+        );
+        let constr = builder.mul_extension(is_jumpi, diff);
+        yield_constr.constraint(builder, constr);
+        let diff = builder.sub_extension(cond_channel.addr_virtual, lv.stack_len);
+        let diff = builder.add_const_extension(diff, F::TWO);
+        let constr = builder.mul_extension(is_jumpi, diff);
+        yield_constr.constraint(builder, constr);
+    }
 
     // Update stack length.
     {
diff --git a/evm_arithmetization/src/cpu/memio.rs b/evm_arithmetization/src/cpu/memio.rs
index b68f78b..b1ac71f 100644
--- a/evm_arithmetization/src/cpu/memio.rs
+++ b/evm_arithmetization/src/cpu/memio.rs
@@ -189,6 +189,12 @@ fn eval_packed_store<P: PackedField>(
     // Constrain `stack_inv_aux_2`. It contains `stack_inv_aux * opcode_bits[0]`.
     yield_constr
         .constraint(lv.op.m_op_general * (lv.general.stack().stack_inv_aux_2 - is_top_read));
+    // If MSTORE and stack_len != 2, then `stack_inv_aux_2` = 1.
+    yield_constr.constraint(
+        lv.op.m_op_general
+            * len_diff
+            * (lv.opcode_bits[0] + lv.general.stack().stack_inv_aux_2 - P::ONES),
+    );
     let new_filter = lv.op.m_op_general * lv.general.stack().stack_inv_aux_2;
     yield_constr.constraint_transition(new_filter * (top_read_channel.used - P::ONES));
     yield_constr.constraint_transition(new_filter * (top_read_channel.is_read - P::ONES));
@@ -205,6 +211,11 @@ fn eval_packed_store<P: PackedField>(
         lv.op.m_op_general * (lv.general.stack().stack_inv_aux - P::ONES) * top_read_channel.used,
     );
     yield_constr.constraint(lv.op.m_op_general * lv.opcode_bits[0] * top_read_channel.used);
+
+    // Constrain the new stack length.
+    yield_constr.constraint_transition(
+        filter * (nv.stack_len - lv.stack_len + P::Scalar::from_canonical_usize(2)),
+    );
 }
 
 /// Circuit version of `eval_packed_store`.
@@ -306,6 +317,15 @@ fn eval_ext_circuit_store<F: RichField + Extendable<D>, const D: usize>(
         let constr = builder.mul_extension(lv.op.m_op_general, diff);
         yield_constr.constraint(builder, constr);
     }
+    // If MSTORE and stack_len != 2, then `stack_inv_aux_2` = 1.
+    {
+        let len_diff = builder.add_const_extension(lv.stack_len, -F::from_canonical_usize(2));
+        let len_diff = builder.mul_extension(lv.op.m_op_general, len_diff);
+        let is_top_read =
+            builder.add_extension(lv.opcode_bits[0], lv.general.stack().stack_inv_aux_2);
+        let constr = builder.mul_sub_extension(len_diff, is_top_read, len_diff);
+        yield_constr.constraint(builder, constr);
+    }
     let new_filter = builder.mul_extension(lv.op.m_op_general, lv.general.stack().stack_inv_aux_2);
     {
         let constr = builder.mul_sub_extension(new_filter, top_read_channel.used, new_filter);
@@ -349,6 +369,14 @@ fn eval_ext_circuit_store<F: RichField + Extendable<D>, const D: usize>(
         let constr = builder.mul_extension(mul, top_read_channel.used);
         yield_constr.constraint(builder, constr);
     }
+
+    // Constrain the new stack length.
+    {
+        let diff = builder.sub_extension(nv.stack_len, lv.stack_len);
+        let diff = builder.add_const_extension(diff, F::TWO);
+        let constr = builder.mul_extension(filter, diff);
+        yield_constr.constraint_transition(builder, constr);
+    }
 }
 
 /// Evaluates constraints for MLOAD_GENERAL and MSTORE_GENERAL.
diff --git a/evm_arithmetization/src/cpu/stack.rs b/evm_arithmetization/src/cpu/stack.rs
index e5b1682..7d0c598 100644
--- a/evm_arithmetization/src/cpu/stack.rs
+++ b/evm_arithmetization/src/cpu/stack.rs
@@ -156,7 +156,7 @@ pub(crate) const STACK_BEHAVIORS: OpsColumnsView<Option<StackBehavior>> = OpsCol
     m_op_32bytes: Some(StackBehavior {
         num_pops: 2,
         pushes: true,
-        disable_other_channels: false,
+        disable_other_channels: true,
     }),
     exit_kernel: Some(StackBehavior {
         num_pops: 1,
@@ -295,12 +295,16 @@ pub(crate) fn eval_packed_one<P: PackedField>(
         yield_constr.constraint(filter * lv.partial_channel.used);
     }
 
+    // If the op pushes, the new top of the stack isn't read from memory.
+    if stack_behavior.pushes {
+        yield_constr.constraint_transition(filter * nv.mem_channels[0].used);
+    }
+
     // Unused channels
     if stack_behavior.disable_other_channels {
         // The first channel contains (or not) the top of the stack and is constrained
         // elsewhere.
-        for i in max(1, stack_behavior.num_pops)..NUM_GP_CHANNELS - (stack_behavior.pushes as usize)
-        {
+        for i in max(1, stack_behavior.num_pops)..NUM_GP_CHANNELS {
             let channel = lv.mem_channels[i];
             yield_constr.constraint(filter * channel.used);
         }
@@ -385,6 +389,12 @@ pub(crate) fn eval_packed<P: PackedField>(
     // Constrain `stack_inv_aux_2`. It contains `stack_inv_aux * (1 -
     // opcode_bits[0])`.
     yield_constr.constraint(lv.op.not_pop * (lv.general.stack().stack_inv_aux_2 - is_top_read));
+    // If POP and stack_len != 1, then `stack_inv_aux_2` = 1.
+    yield_constr.constraint(
+        lv.op.not_pop
+            * len_diff
+            * (lv.opcode_bits[0] + lv.general.stack().stack_inv_aux_2 - P::ONES),
+    );
     let new_filter = lv.op.not_pop * lv.general.stack().stack_inv_aux_2;
     yield_constr.constraint_transition(new_filter * (top_read_channel.used - P::ONES));
     yield_constr.constraint_transition(new_filter * (top_read_channel.is_read - P::ONES));
@@ -612,12 +622,17 @@ pub(crate) fn eval_ext_circuit_one<F: RichField + Extendable<D>, const D: usize>
         }
     }
 
+    // If the op pushes, the new top of the stack isn't read from memory.
+    if stack_behavior.pushes {
+        let constr = builder.mul_extension(filter, nv.mem_channels[0].used);
+        yield_constr.constraint_transition(builder, constr);
+    }
+
     // Unused channels
     if stack_behavior.disable_other_channels {
         // The first channel contains (or not) the top of the stack and is constrained
         // elsewhere.
-        for i in max(1, stack_behavior.num_pops)..NUM_GP_CHANNELS - (stack_behavior.pushes as usize)
-        {
+        for i in max(1, stack_behavior.num_pops)..NUM_GP_CHANNELS {
             let channel = lv.mem_channels[i];
             let constr = builder.mul_extension(filter, channel.used);
             yield_constr.constraint(builder, constr);
@@ -732,6 +747,15 @@ pub(crate) fn eval_ext_circuit<F: RichField + Extendable<D>, const D: usize>(
         let constr = builder.mul_extension(lv.op.not_pop, diff);
         yield_constr.constraint(builder, constr);
     }
+    // If POP and stack_len != 1, then `stack_inv_aux_2` = 1.
+    {
+        let len_diff = builder.add_const_extension(lv.stack_len, F::NEG_ONE);
+        let len_diff = builder.mul_extension(lv.op.not_pop, len_diff);
+        let is_top_read =
+            builder.add_extension(lv.opcode_bits[0], lv.general.stack().stack_inv_aux_2);
+        let constr = builder.mul_sub_extension(len_diff, is_top_read, len_diff);
+        yield_constr.constraint(builder, constr);
+    }
     let new_filter = builder.mul_extension(lv.op.not_pop, lv.general.stack().stack_inv_aux_2);
     {
         let constr = builder.mul_sub_extension(new_filter, top_read_channel.used, new_filter);
-- 
2.43.0


From 76ef905ed6ee2c62861bea824c95db2c82ff9dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:32 +0000
Subject: [PATCH 09/27] fix: make Keccak bits boolean, range-check sponge
 digests and enforce padding on the last row

---
 evm_arithmetization/src/keccak/columns.rs     |  8 +++++
 .../src/keccak/keccak_stark.rs                | 18 ++++++++--
 .../src/keccak_sponge/keccak_sponge_stark.rs  | 35 +++++++++++--------
 3 files changed, 45 insertions(+), 16 deletions(-)

diff --git a/evm_arithmetization/src/keccak/columns.rs b/evm_arithmetization/src/keccak/columns.rs
index bbd96a7..a4b2d65 100644
--- a/evm_arithmetization/src/keccak/columns.rs
+++ b/evm_arithmetization/src/keccak/columns.rs
@@ -131,4 +131,12 @@ pub(crate) const fn reg_a_prime_prime_prime(x: usize, y: usize) -> usize {
     }
 }
 
+/// The registers holding single bits, except those of C' which are determined
+/// by those of C.
+pub(crate) fn boolean_registers() -> impl Iterator<Item = usize> {
+    (START_C..START_C_PRIME)
+        .chain(START_A_PRIME..START_A_PRIME_PRIME)
+        .chain(START_A_PRIME_PRIME_0_0_BITS..REG_A_PRIME_PRIME_PRIME_0_0_LO)
+}
+
 pub(crate) const NUM_COLUMNS: usize = REG_A_PRIME_PRIME_PRIME_0_0_HI + 1;
diff --git a/evm_arithmetization/src/keccak/keccak_stark.rs b/evm_arithmetization/src/keccak/keccak_stark.rs
index 0a086d0..e98524e 100644
--- a/evm_arithmetization/src/keccak/keccak_stark.rs
+++ b/evm_arithmetization/src/keccak/keccak_stark.rs
@@ -19,8 +19,9 @@ use starky::util::trace_rows_to_poly_values;
 use super::columns::reg_input_limb;
 use crate::all_stark::EvmStarkFrame;
 use crate::keccak::columns::{
-    reg_a, reg_a_prime, reg_a_prime_prime, reg_a_prime_prime_0_0_bit, reg_a_prime_prime_prime,
-    reg_b, reg_c, reg_c_prime, reg_output_limb, reg_step, NUM_COLUMNS, TIMESTAMP,
+    boolean_registers, reg_a, reg_a_prime, reg_a_prime_prime, reg_a_prime_prime_0_0_bit,
+    reg_a_prime_prime_prime, reg_b, reg_c, reg_c_prime, reg_output_limb, reg_step, NUM_COLUMNS,
+    TIMESTAMP,
 };
 use crate::keccak::constants::{rc_value, rc_value_bit};
 use crate::keccak::logic::{
@@ -276,6 +277,12 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for KeccakStark<F
         let local_values = vars.get_local_values();
         let next_values = vars.get_next_values();
 
+        // The bits of C, A' and A''[0, 0] must be boolean. Then so are the bits of C'.
+        for reg in boolean_registers() {
+            let bit = local_values[reg];
+            yield_constr.constraint(bit * (bit - P::ONES));
+        }
+
         // If this is not the final step, the filter must be off.
         let not_final_step = P::ONES - local_values[reg_step(NUM_ROUNDS - 1)];
 
@@ -441,6 +448,13 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for KeccakStark<F
         let local_values = vars.get_local_values();
         let next_values = vars.get_next_values();
 
+        // The bits of C, A' and A''[0, 0] must be boolean. Then so are the bits of C'.
+        for reg in boolean_registers() {
+            let bit = local_values[reg];
+            let constr = builder.mul_sub_extension(bit, bit, bit);
+            yield_constr.constraint(builder, constr);
+        }
+
         // If this is not the final step, the filter must be off.
         let not_final_step = builder.sub_extension(one_ext, local_values[reg_step(NUM_ROUNDS - 1)]);
 
diff --git a/evm_arithmetization/src/keccak_sponge/keccak_sponge_stark.rs b/evm_arithmetization/src/keccak_sponge/keccak_sponge_stark.rs
index 26cc764..4d02c94 100644
--- a/evm_arithmetization/src/keccak_sponge/keccak_sponge_stark.rs
+++ b/evm_arithmetization/src/keccak_sponge/keccak_sponge_stark.rs
@@ -228,6 +228,15 @@ pub(crate) fn ctl_looking_keccak_filter<F: Field>() -> Filter<F> {
     ]))
 }
 
+/// Columns holding bytes. The bytes of the digest must be range-checked too, as
+/// they are recombined in different orders for `KeccakStark` and for the CPU.
+fn range_checked_columns() -> impl Iterator<Item = usize> {
+    KECCAK_SPONGE_COL_MAP
+        .block_bytes
+        .into_iter()
+        .chain(KECCAK_SPONGE_COL_MAP.updated_digest_state_bytes)
+}
+
 /// Information about a Keccak sponge operation needed for witness generation.
 #[derive(Clone, Debug)]
 pub(crate) struct KeccakSpongeOp {
@@ -517,8 +526,7 @@ impl<F: RichField + Extendable<D>, const D: usize> KeccakSpongeStark<F, D> {
         // For each column c in cols, generate the range-check
         // permutations and put them in the corresponding range-check
         // columns rc_c and rc_c+1.
-        for col in 0..KECCAK_RATE_BYTES {
-            let c = KECCAK_SPONGE_COL_MAP.block_bytes[col];
+        for c in range_checked_columns() {
             for i in 0..n_rows {
                 let x = cols[c][i].to_canonical_u64() as usize;
                 assert!(
@@ -671,7 +679,7 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for KeccakSpongeS
 
         // If the row has a single padding byte, then it must be the last byte with
         // value 0b10000001.
-        yield_constr.constraint_transition(
+        yield_constr.constraint(
             has_single_padding_byte
                 * (local_values.block_bytes[KECCAK_RATE_BYTES - 1]
                     - P::from(FE::from_canonical_u8(0b10000001))),
@@ -686,19 +694,18 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for KeccakSpongeS
                 }
             };
             // If the row has multiple padding bytes, the first padding byte must be 1.
-            yield_constr.constraint_transition(
-                is_first_padding_byte * (local_values.block_bytes[i] - P::ONES),
-            );
+            yield_constr
+                .constraint(is_first_padding_byte * (local_values.block_bytes[i] - P::ONES));
             // If the row has multiple padding bytes, the other padding bytes
             // except the last one must be 0.
-            yield_constr.constraint_transition(
+            yield_constr.constraint(
                 local_values.is_padding_byte[i]
                     * (is_first_padding_byte - P::ONES)
                     * local_values.block_bytes[i],
             );
         }
         // If the row has multiple padding bytes, then the last byte must be 0b10000000.
-        yield_constr.constraint_transition(
+        yield_constr.constraint(
             is_final_block
                 * (has_single_padding_byte - P::ONES)
                 * (local_values.block_bytes[KECCAK_RATE_BYTES - 1]
@@ -882,7 +889,7 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for KeccakSpongeS
             padding_byte,
         );
         let constraint = builder.mul_extension(has_single_padding_byte, diff);
-        yield_constr.constraint_transition(builder, constraint);
+        yield_constr.constraint(builder, constraint);
 
         for i in 0..KECCAK_RATE_BYTES - 1 {
             let is_first_padding_byte = {
@@ -901,7 +908,7 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for KeccakSpongeS
                 local_values.block_bytes[i],
                 is_first_padding_byte,
             );
-            yield_constr.constraint_transition(builder, constraint);
+            yield_constr.constraint(builder, constraint);
 
             // If the row has multiple padding bytes, the other padding bytes
             // except the last one must be 0.
@@ -911,7 +918,7 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for KeccakSpongeS
                 local_values.is_padding_byte[i],
             );
             let constraint = builder.mul_extension(sel, local_values.block_bytes[i]);
-            yield_constr.constraint_transition(builder, constraint);
+            yield_constr.constraint(builder, constraint);
         }
 
         // If the row has multiple padding bytes, then the last byte must be 0b10000000.
@@ -923,7 +930,7 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for KeccakSpongeS
             padding_byte,
         );
         let constraint = builder.mul_extension(sel, diff);
-        yield_constr.constraint_transition(builder, constraint);
+        yield_constr.constraint(builder, constraint);
 
         // A dummy row is always followed by another dummy row, so the prover can't put
         // dummy rows "in between" to avoid the above checks.
@@ -945,10 +952,10 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for KeccakSpongeS
 
     fn lookups(&self) -> Vec<Lookup<F>> {
         vec![Lookup {
-            columns: Column::singles(KECCAK_SPONGE_COL_MAP.block_bytes).collect(),
+            columns: Column::singles(range_checked_columns()).collect(),
             table_column: Column::single(KECCAK_SPONGE_COL_MAP.range_counter),
             frequencies_column: Column::single(KECCAK_SPONGE_COL_MAP.rc_frequencies),
-            filter_columns: vec![Default::default(); KECCAK_RATE_BYTES],
+            filter_columns: vec![Default::default(); KECCAK_RATE_BYTES + KECCAK_DIGEST_BYTES],
         }]
     }
 
-- 
2.43.0


From 3e53d1419bd8bd5f164adbeada6460f2b6578e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:36 +0000
Subject: [PATCH 10/27] fix: do not share the hash cache of a trie with its
 clones after a change

---
 mpt_trie/src/partial_trie.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/mpt_trie/src/partial_trie.rs b/mpt_trie/src/partial_trie.rs
index e8f1ebe..2d92eaa 100644
--- a/mpt_trie/src/partial_trie.rs
+++ b/mpt_trie/src/partial_trie.rs
@@ -347,6 +347,12 @@ impl HashedPartialTrie {
     pub(crate) fn set_hash(&self, v: Option<H256>) {
         *self.hash.write() = v;
     }
+
+    /// Forgets the cached hash of this trie. Clones share the cache and are not
+    /// affected by a change of this one, so it must not be cleared in place.
+    fn reset_hash(&mut self) {
+        self.hash = Arc::new(RwLock::new(None));
+    }
 }
 
 impl PartialTrie for HashedPartialTrie {
@@ -372,7 +378,7 @@ impl PartialTrie for HashedPartialTrie {
         V: Into<crate::trie_ops::ValOrHash>,
     {
         self.node.trie_insert(k, v)?;
-        self.set_hash(None);
+        self.reset_hash();
         Ok(())
     }
 
@@ -382,9 +388,11 @@ impl PartialTrie for HashedPartialTrie {
         V: Into<crate::trie_ops::ValOrHash>,
         I: IntoIterator<Item = (K, V)>,
     {
-        self.node.trie_extend(nodes)?;
-        self.set_hash(None);
-        Ok(())
+        // If this fails midway, the entries before the failure have been inserted.
+        let res = self.node.trie_extend(nodes);
+        self.reset_hash();
+
+        res
     }
 
     fn get<K>(&self, k: K) -> Option<&[u8]>
@@ -399,7 +407,7 @@ impl PartialTrie for HashedPartialTrie {
         K: Into<crate::nibbles::Nibbles>,
     {
         let res = self.node.trie_delete(k, self.strategy);
-        self.set_hash(None);
+        self.reset_hash();
 
         res
     }
-- 
2.43.0


From 6dac96359b2401548a1ee80d69d1ed268e67d784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:36 +0000
Subject: [PATCH 11/27] fix: get no value for a key that ends within an
 extension or differs from a leaf's in length

---
 mpt_trie/src/trie_ops.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpt_trie/src/trie_ops.rs b/mpt_trie/src/trie_ops.rs
index c7cee9b..38dc665 100644
--- a/mpt_trie/src/trie_ops.rs
+++ b/mpt_trie/src/trie_ops.rs
@@ -356,16 +356,20 @@ impl<T: PartialTrie> Node<T> {
             }
             Node::Extension { nibbles, child } => {
                 trace!("Get traversed Extension (nibbles: {:?})", nibbles);
+                // The key may end within the extension.
+                if curr_nibbles.count < nibbles.count {
+                    return None;
+                }
                 let r = curr_nibbles.pop_nibbles_front(nibbles.count);
 
-                match r.nibbles_are_identical_up_to_smallest_count(nibbles) {
+                match r == *nibbles {
                     false => None,
                     true => child.trie_get_intern(curr_nibbles),
                 }
             }
             Node::Leaf { nibbles, value } => {
                 trace!("Get traversed Leaf (nibbles: {:?})", nibbles);
-                match nibbles.nibbles_are_identical_up_to_smallest_count(curr_nibbles) {
+                match nibbles == curr_nibbles {
                     false => None,
                     true => Some(value),
                 }
-- 
2.43.0


From 7e91a55fb420a109c10985cd0ab4338ff143267c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:36 +0000
Subject: [PATCH 12/27] fix: keep no child of an extension for a shorter key,
 and reset the root between subsets

---
 mpt_trie/src/trie_subsets.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/mpt_trie/src/trie_subsets.rs b/mpt_trie/src/trie_subsets.rs
index eadb6b3..04b869f 100644
--- a/mpt_trie/src/trie_subsets.rs
+++ b/mpt_trie/src/trie_subsets.rs
@@ -325,6 +325,10 @@ fn mark_nodes_that_are_needed<N: PartialTrie>(
             trie.info.touched = true;
 
             let nibbles: &Nibbles = trie.info.get_nibbles_expected();
+            // A key that ends within the extension does not reach its child.
+            if curr_nibbles.count < nibbles.count {
+                return Ok(());
+            }
             if curr_nibbles.nibbles_are_identical_up_to_smallest_count(nibbles) {
                 curr_nibbles.pop_nibbles_front(nibbles.count);
                 return mark_nodes_that_are_needed(child, curr_nibbles);
@@ -373,18 +377,14 @@ fn create_partial_trie_subset_from_tracked_trie<N: PartialTrie>(
 }
 
 fn reset_tracked_trie_state<N: PartialTrie>(tracked_node: &mut TrackedNode<N>) {
+    tracked_node.info.reset();
+
     match tracked_node.node {
-        TrackedNodeIntern::Branch(ref mut children) => children.iter_mut().for_each(|c| {
-            c.info.reset();
-            reset_tracked_trie_state(c);
-        }),
-        TrackedNodeIntern::Extension(ref mut child) => {
-            child.info.reset();
-            reset_tracked_trie_state(child);
-        }
-        TrackedNodeIntern::Empty | TrackedNodeIntern::Hash | TrackedNodeIntern::Leaf => {
-            tracked_node.info.reset()
+        TrackedNodeIntern::Branch(ref mut children) => {
+            children.iter_mut().for_each(reset_tracked_trie_state)
         }
+        TrackedNodeIntern::Extension(ref mut child) => reset_tracked_trie_state(child),
+        TrackedNodeIntern::Empty | TrackedNodeIntern::Hash | TrackedNodeIntern::Leaf => (),
     }
 }
 
-- 
2.43.0


From eb876c6c5757cb7b4d53fde62c152b17d45fb3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:36 +0000
Subject: [PATCH 13/27] fix: decode and keep children that are embedded in
 their parent in PartialTrieBuilder

---
 mpt_trie/src/builder.rs | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/mpt_trie/src/builder.rs b/mpt_trie/src/builder.rs
index 43aebb7..7cf36c2 100644
--- a/mpt_trie/src/builder.rs
+++ b/mpt_trie/src/builder.rs
@@ -5,7 +5,7 @@ use std::sync::Arc;
 
 use ethereum_types::H256;
 use keccak_hash::keccak;
-use rlp::{Prototype, Rlp};
+use rlp::{Prototype, Rlp, RlpStream};
 use zk_evm_common::EMPTY_TRIE_HASH;
 
 use super::{
@@ -46,16 +46,12 @@ impl<T: PartialTrie> PartialTrieBuilder<T> {
         for node in proof {
             let rlp = Rlp::new(&node);
             match rlp.prototype().expect("rlp data is valid") {
-                Prototype::List(2) => {
-                    self.insert_short_node_variants(rlp.as_list().expect("valid list"))
-                }
+                Prototype::List(2) => self.insert_short_node_variants(decode_items(&rlp)),
                 Prototype::List(17) => {
                     for i in 0..16 {
                         if let Ok(entry) = rlp.at(i) {
                             if let Prototype::List(2) = entry.prototype().expect("valid list") {
-                                self.insert_short_node_variants(
-                                    entry.as_list().expect("valid list"),
-                                )
+                                self.insert_short_node_variants(decode_items(&entry))
                             }
                         }
                     }
@@ -75,10 +71,14 @@ impl<T: PartialTrie> PartialTrieBuilder<T> {
         let mut nibbles = Nibbles::from_bytes_be(&bytes[0][..]).unwrap();
         while !nibbles.is_empty() {
             nibbles.pop_next_nibble_front();
-            let node = rlp::encode_list::<Vec<u8>, _>(&[
-                nibbles.to_hex_prefix_encoding(is_leaf).to_vec(),
-                bytes[1].clone(),
-            ]);
+            let mut stream = RlpStream::new_list(2);
+            stream.append(&nibbles.to_hex_prefix_encoding(is_leaf).to_vec());
+            match is_leaf || bytes[1].len() >= 32 {
+                true => stream.append(&bytes[1]),
+                // The child of the extension is embedded.
+                false => stream.append_raw(&bytes[1], 1),
+            };
+            let node = stream.out();
             self.nodes.entry(keccak(&node)).or_insert(node.to_vec());
         }
     }
@@ -87,7 +87,7 @@ impl<T: PartialTrie> PartialTrieBuilder<T> {
 /// Constructs a partial trie from a root hash and a collection of nodes.
 fn construct_partial_trie<T: PartialTrie>(hash: H256, nodes: &HashMap<H256, Vec<u8>>) -> T {
     let bytes = match nodes.get(&hash) {
-        Some(value) => rlp::decode_list::<Vec<u8>>(value),
+        Some(value) => decode_items(&Rlp::new(value)),
         None if [H256::zero(), EMPTY_TRIE_HASH].contains(&hash) => return T::default(),
         None => return T::new(Node::Hash(hash)),
     };
@@ -95,6 +95,17 @@ fn construct_partial_trie<T: PartialTrie>(hash: H256, nodes: &HashMap<H256, Vec<
     decode_node(bytes, nodes)
 }
 
+/// Returns the items of the encoded node: the data of strings, and the encoding
+/// of child nodes that are small enough to be embedded.
+fn decode_items(rlp: &Rlp) -> Vec<Vec<u8>> {
+    rlp.iter()
+        .map(|item| match item.is_list() {
+            true => item.as_raw().to_vec(),
+            false => item.data().expect("rlp data is valid").to_vec(),
+        })
+        .collect()
+}
+
 fn decode_node<T: PartialTrie>(bytes: Vec<Vec<u8>>, nodes: &HashMap<H256, Vec<u8>>) -> T {
     let node = match bytes.len() {
         17 => parse_branch_node(bytes, nodes),
@@ -171,7 +182,7 @@ fn parse_leaf_node<T: PartialTrie>(bytes: Vec<Vec<u8>>) -> Node<T> {
 /// Parses a child node from the given bytes.
 fn parse_child_node<T: PartialTrie>(bytes: &[u8], nodes: &HashMap<H256, Vec<u8>>) -> T {
     match bytes.len() {
-        x if x < 32 => decode_node(rlp::decode_list::<Vec<u8>>(bytes), nodes),
+        x if x < 32 => decode_node(decode_items(&Rlp::new(bytes)), nodes),
         _ => construct_partial_trie(H256::from_slice(bytes), nodes),
     }
 }
-- 
2.43.0


From 2eb988f1942cee73152f45b02e2d1f8dfbbf004f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:36 +0000
Subject: [PATCH 14/27] fix: return zero for an absent key that leads to an
 empty subtree of the SMT

---
 smt_trie/src/smt.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/smt_trie/src/smt.rs b/smt_trie/src/smt.rs
index d2236ae..99a79b5 100644
--- a/smt_trie/src/smt.rs
+++ b/smt_trie/src/smt.rs
@@ -156,7 +156,15 @@ impl<D: Db> Smt<D> {
                 level += 1;
             }
         }
-        unreachable!()
+
+        // The key leads to an empty subtree.
+        assert!(self
+            .kv_store
+            .get(&key)
+            .copied()
+            .unwrap_or_default()
+            .is_zero());
+        U256::ZERO
     }
 
     /// Set the value associated with the key in the SMT.
-- 
2.43.0


From 4b00890511b5b30d5e3dab6df2e381786a30bf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:36 +0000
Subject: [PATCH 15/27] fix: do not overflow the shift of a limb for SMT keys
 that only differ in the last levels

---
 smt_trie/src/smt.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/smt_trie/src/smt.rs b/smt_trie/src/smt.rs
index 99a79b5..43e8ecf 100644
--- a/smt_trie/src/smt.rs
+++ b/smt_trie/src/smt.rs
@@ -50,7 +50,9 @@ impl Key {
             n[i % 4] += 1;
         }
         let key = std::array::from_fn(|i| {
-            F::from_canonical_u64((rem_key.0[i].to_canonical_u64() << n[i]) | accs[i])
+            let rem = rem_key.0[i].to_canonical_u64();
+            // The whole limb is in `bits` if `n[i]` is 64.
+            F::from_canonical_u64(rem.checked_shl(n[i]).unwrap_or_default() | accs[i])
         });
         Key(key)
     }
@@ -63,7 +65,7 @@ impl Key {
             if full_levels * 4 + i < nbits {
                 n += 1;
             }
-            auxk[i] >>= n;
+            auxk[i] = auxk[i].checked_shr(n as u32).unwrap_or_default();
         }
         Key(auxk.map(F::from_canonical_u64))
     }
-- 
2.43.0


From 100af623c297b48d82b4449890bac39148c8e542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:38 +0000
Subject: [PATCH 16/27] fix: BLOBBASEFEE is not an invalid opcode on Ethereum
 mainnet

A prover could make it fail with an invalid opcode exception. Without the
feature, BLOBHASH and BLOBBASEFEE are both invalid.
---
 .../src/cpu/kernel/constants/exc_bitfields.rs     | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/cpu/kernel/constants/exc_bitfields.rs b/evm_arithmetization/src/cpu/kernel/constants/exc_bitfields.rs
index 5ed5972..ee9c433 100644
--- a/evm_arithmetization/src/cpu/kernel/constants/exc_bitfields.rs
+++ b/evm_arithmetization/src/cpu/kernel/constants/exc_bitfields.rs
@@ -57,11 +57,24 @@ pub(crate) const STACK_LENGTH_INCREASING_OPCODES_USER: U256 = u256_from_set_inde
     0x5f..=0x8f, // PUSH*, DUP*
 ]);
 
+#[cfg(feature = "eth_mainnet")]
+pub(crate) const INVALID_OPCODES_USER: U256 = u256_from_set_index_ranges(&[
+    0x0c..=0x0f,
+    0x1e..=0x1f,
+    0x21..=0x2f,
+    0x4b..=0x4f,
+    0xa5..=0xef,
+    0xf6..=0xf9,
+    0xfb..=0xfc,
+    0xfe..=0xfe,
+]);
+
+#[cfg(not(feature = "eth_mainnet"))]
 pub(crate) const INVALID_OPCODES_USER: U256 = u256_from_set_index_ranges(&[
     0x0c..=0x0f,
     0x1e..=0x1f,
     0x21..=0x2f,
-    0x4a..=0x4f,
+    0x49..=0x4f,
     0xa5..=0xef,
     0xf6..=0xf9,
     0xfb..=0xfc,
-- 
2.43.0


From a2fd1a3a7372b9f9616f8e2e7b0d5a9d18c94c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:38 +0000
Subject: [PATCH 17/27] fix: jump destinations of an initcode above
 MAX_CODE_SIZE are valid

A prover could make such a jump fail with an invalid jump exception.
---
 evm_arithmetization/src/cpu/kernel/asm/core/exception.asm | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/exception.asm b/evm_arithmetization/src/cpu/kernel/asm/core/exception.asm
index bea641c..393cb37 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/exception.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/exception.asm
@@ -130,10 +130,10 @@ global invalid_jump_jumpi_destination_common:
         // We have a jump destination on the stack. We want to `PANIC` if it is valid, and jump to
         // `fault_exception` if it is not. An address is a valid jump destination if it points to a
         // `JUMPDEST` instruction. In practice, we check two things:
-        //  1. the address is no greater than MAX_CODE_SIZE, and
+        //  1. the address is no greater than MAX_INITCODE_SIZE (the code may be an initcode), and
         //  2. it points to a `JUMPDEST` instruction.
         // stack: jump_dest
-        PUSH @MAX_CODE_SIZE
+        PUSH @MAX_INITCODE_SIZE
         DUP2
         // stack: jump_dest, max_size, jump_dest
         GT // jump_dest > max_size == !(jump_dest <= max_size)
-- 
2.43.0


From aa88408d7a530c081b4f50d354ce372f6d51c9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:38 +0000
Subject: [PATCH 18/27] fix: compare the final stack top without overflow in
 exc_stop

The difference was multiplied by the stack length, so that for an even
length a stack top that differs by 2^255 was accepted as the final one.
---
 evm_arithmetization/src/cpu/kernel/asm/core/exception.asm | 5 +++--
 evm_arithmetization/src/generation/mod.rs                 | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/exception.asm b/evm_arithmetization/src/cpu/kernel/asm/core/exception.asm
index 393cb37..c065db9 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/exception.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/exception.asm
@@ -209,8 +209,9 @@ global exc_stop:
     DUP3 %add_const(3)
     MLOAD_GENERAL
     // stack: stored_stack_top, stack_top_before_exc, stack_len_before_exc, addr_registers, trap_info
-    SUB MUL
-    // stack: (stored_stack_top - stack_top_before_exc) * stack_len_before_exc, addr_registers, trap_info
+    // A difference must not be multiplied by the length, as the product could be zero modulo 2^256.
+    EQ ISZERO MUL
+    // stack: (stored_stack_top != stack_top_before_exc) * stack_len_before_exc, addr_registers, trap_info
     %assert_zero
 
     // Check the program counter.
diff --git a/evm_arithmetization/src/generation/mod.rs b/evm_arithmetization/src/generation/mod.rs
index 023e1f2..e96c060 100644
--- a/evm_arithmetization/src/generation/mod.rs
+++ b/evm_arithmetization/src/generation/mod.rs
@@ -46,7 +46,7 @@ use crate::witness::util::mem_write_log;
 
 /// Number of cycles to go after having reached the halting state. It is
 /// equal to the number of cycles in `exc_stop` + 1.
-pub const NUM_EXTRA_CYCLES_AFTER: usize = 82;
+pub const NUM_EXTRA_CYCLES_AFTER: usize = 83;
 /// Number of cycles to go before starting the execution: it is the number of
 /// cycles in `init`.
 pub const NUM_EXTRA_CYCLES_BEFORE: usize = 64;
-- 
2.43.0


From faa446880df22206fe53a1b8fab0fdc7c26bc16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:28 +0000
Subject: [PATCH 19/27] fix: reject access list hints that point below the
 segment of the list

---
 .../src/cpu/kernel/asm/core/access_lists.asm     | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/access_lists.asm b/evm_arithmetization/src/cpu/kernel/asm/core/access_lists.asm
index 84cc407..98c5228 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/access_lists.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/access_lists.asm
@@ -72,8 +72,16 @@ global init_access_lists:
 
 // Multiply the value at the top of the stack, denoted by ptr/2, by 2
 // and abort if ptr/2 >= mem[@GLOBAL_METADATA_ACCESSED_ADDRESSES_LEN]/2
+// or ptr < @SEGMENT_ACCESSED_ADDRESSES.
 // In this way 2*ptr/2 must be pointing to the beginning of a node.
 %macro get_valid_addr_ptr
+    // stack: ptr/2
+    // Check that the pointer is not below the segment.
+    PUSH @SEGMENT_ACCESSED_ADDRESSES
+    DUP2
+    %mul_const(2)
+    // stack: ptr, @SEGMENT_ACCESSED_ADDRESSES, ptr/2
+    %increment %assert_gt
     // stack: ptr/2
     DUP1
     // stack: ptr/2, ptr/2
@@ -218,8 +226,16 @@ global remove_accessed_addresses:
 
 // Multiply the ptr at the top of the stack, denoted by ptr/4, by 4
 // and abort if ptr/4 >= @GLOBAL_METADATA_ACCESSED_STORAGE_KEYS_LEN/4
+// or ptr < @SEGMENT_ACCESSED_STORAGE_KEYS.
 // In this way 4*ptr/4 be pointing to the beginning of a node.
 %macro get_valid_storage_ptr
+    // stack: ptr/4
+    // Check that the pointer is not below the segment.
+    PUSH @SEGMENT_ACCESSED_STORAGE_KEYS
+    DUP2
+    %mul_const(4)
+    // stack: ptr, @SEGMENT_ACCESSED_STORAGE_KEYS, ptr/4
+    %increment %assert_gt
     // stack: ptr/4
     DUP1
     %mload_global_metadata(@GLOBAL_METADATA_ACCESSED_STORAGE_KEYS_LEN)
-- 
2.43.0


From 0352c68af90d461194ab5e82f5f16a63c3e1706e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:28 +0000
Subject: [PATCH 20/27] fix: check the successor before an account or slot is
 reported missing

---
 .../asm/mpt/linked_list/linked_list.asm       | 47 +++++++++++++++++--
 1 file changed, 44 insertions(+), 3 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm b/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
index 650d69d..a0c704d 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
@@ -301,7 +301,20 @@ account_found:
 
 account_not_found:
     // stack: pred_addr_key, pred_ptr, addr_key, retdest
-    %stack (pred_addr_key, pred_ptr, addr_key, retdest) -> (retdest, 0)
+    POP
+    // Here, (addr_key > pred_addr_key) || (pred_ptr == @SEGMENT_ACCOUNTS_LINKED_LIST).
+    // The account is missing only if `pred_ptr` is not a deleted node and the next key is strictly larger.
+    %next_account
+    // stack: next_ptr, addr_key, retdest
+    DUP1
+    %eq_const(@U256_MAX)
+    %assert_zero
+    MLOAD_GENERAL
+    // stack: next_addr_key, addr_key, retdest
+    %assert_gt
+    // stack: retdest
+    PUSH 0
+    SWAP1
     JUMP
 
 %macro remove_account_from_linked_list
@@ -831,8 +844,36 @@ global search_slot:
     PANIC
 slot_not_found:    
     // stack: pred_addr_or_pred_key, pred_ptr, addr_key, key, value, retdest
-    %stack (pred_addr_or_pred_key, pred_ptr, addr_key, key, value, retdest)
-        -> (retdest, value)
+    POP
+    // Here, (addr_key, key) > (pred_addr_key, pred_key) or pred_ptr == @SEGMENT_STORAGE_LINKED_LIST.
+    // The slot is missing only if `pred_ptr` is not a deleted node and the next keys are strictly larger.
+    %next_slot
+    // stack: next_ptr, addr_key, key, value, retdest
+    DUP1
+    %eq_const(@U256_MAX)
+    %assert_zero
+    DUP1
+    %increment
+    MLOAD_GENERAL
+    // stack: next_key, next_ptr, addr_key, key, value, retdest
+    SWAP1
+    MLOAD_GENERAL
+    // stack: next_addr_key, next_key, addr_key, key, value, retdest
+    DUP3 DUP2 EQ
+    // stack: next_addr_key == addr_key, next_addr_key, next_key, addr_key, key, value, retdest
+    SWAP2
+    DUP5 LT
+    // stack: key < next_key, next_addr_key, next_addr_key == addr_key, addr_key, key, value, retdest
+    SWAP1 SWAP2
+    MUL // AND
+    SWAP2
+    // stack: addr_key, next_addr_key, next_addr_key == addr_key AND key < next_key, key, value, retdest
+    LT
+    ADD // OR
+    %assert_nonzero
+    // stack: key, value, retdest
+    POP
+    SWAP1
     JUMP
 
 slot_found_no_write:
-- 
2.43.0


From 959c405e28166354d58139a57966c91ed8181d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:28 +0000
Subject: [PATCH 21/27] fix: check that remove_all_account_slots removes every
 slot of the account

---
 .../kernel/asm/mpt/linked_list/linked_list.asm | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm b/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
index a0c704d..45ec306 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
@@ -946,10 +946,14 @@ global remove_all_account_slots:
     // pred_ptr/5, retdest
     %get_valid_slot_ptr
     // stack: pred_ptr, addr_key, retdest
-    // First, check that the previous address is not `addr`
+    // First, check that the previous address is strictly smaller than `addr`,
+    // or that the previous node is the special node with key @U256_MAX.
     DUP1 MLOAD_GENERAL
     // stack: pred_addr_key, pred_ptr, addr_key, retdest
-    DUP3 EQ %jumpi(panic)
+    DUP3 GT
+    DUP2 %eq_const(@SEGMENT_STORAGE_LINKED_LIST)
+    ADD // OR
+    %assert_nonzero
     // stack: pred_ptr, addr_key, retdest
     DUP1
 
@@ -958,7 +962,8 @@ remove_all_slots_loop:
     // stack: pred_ptr, pred_ptr, addr_key, retdest
     %add_const(@STORAGE_NEXT_NODE_PTR) DUP1 MLOAD_GENERAL
     // stack: cur_ptr, cur_ptr_ptr, pred_ptr, addr_key, retdest
-    DUP1 %eq_const(@U256_MAX) %jumpi(remove_all_slots_end)
+    // Check that the previous node is not a deleted node.
+    DUP1 %eq_const(@U256_MAX) %jumpi(panic)
     DUP1 %add_const(@STORAGE_NEXT_NODE_PTR) MLOAD_GENERAL 
     // stack: next_ptr, cur_ptr, cur_ptr_ptr, pred_ptr, addr_key, retdest
     SWAP1 DUP1
@@ -979,8 +984,11 @@ remove_all_slots_loop:
     %jump(remove_all_slots_loop)
 
 remove_all_slots_pop_and_end:
-    POP
-remove_all_slots_end:
+    // stack: cur_ptr, next_ptr, cur_ptr_ptr, pred_ptr, addr_key, retdest
+    // There are no more slots of `addr` only if the address of the current node is strictly larger.
+    MLOAD_GENERAL
+    DUP5 LT
+    %assert_nonzero
     // stack: next_ptr, cur_ptr_ptr, pred_ptr, addr_key, retdest
     %pop4 JUMP
 
-- 
2.43.0


From 92edf2e03faac7e227457a050864c060260fc704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:28 +0000
Subject: [PATCH 22/27] fix: forget the pointers of slots that are deleted with
 their account

---
 evm_arithmetization/src/generation/prover_input.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/evm_arithmetization/src/generation/prover_input.rs b/evm_arithmetization/src/generation/prover_input.rs
index 9c7f5ec..082f52a 100644
--- a/evm_arithmetization/src/generation/prover_input.rs
+++ b/evm_arithmetization/src/generation/prover_input.rs
@@ -616,6 +616,11 @@ impl<F: RichField> GenerationState<F> {
             .range(..(addr, U256::zero()))
             .next_back()
             .unwrap_or((&DUMMYHEAD, &(Segment::StorageLinkedList as usize)));
+        // The kernel deletes all nodes of this account, so they must not be used as
+        // hints anymore.
+        self.state_ptrs
+            .storage
+            .retain(|&(slot_addr, _), _| slot_addr != addr);
 
         Ok(U256::from(
             (pred_ptr - Segment::StorageLinkedList as usize) / STORAGE_LINKED_LIST_NODE_SIZE,
-- 
2.43.0


From 7d97e3abd204b660ae70f31ad439b471d8c5a32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:39 +0000
Subject: [PATCH 23/27] fix: do not count a contract as just created when its
 creation collides

create_contract_account appended the address to the contracts created in
this transaction before it checked for a collision. After a CREATE2 to the
address of an existing contract, a SELFDESTRUCT of that contract in the same
transaction would delete it, which EIP-6780 forbids.
---
 .../src/cpu/kernel/asm/core/create_contract_account.asm        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/create_contract_account.asm b/evm_arithmetization/src/cpu/kernel/asm/core/create_contract_account.asm
index a614f9f..7206b0a 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/create_contract_account.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/create_contract_account.asm
@@ -4,7 +4,6 @@
 %macro create_contract_account
     // stack: address
     DUP1 %insert_touched_addresses
-    DUP1 %append_created_contracts
     DUP1 %mpt_read_state_trie
     // stack: existing_account_ptr, address
     // If the account doesn't exist, there's no need to check its balance or nonce,
@@ -33,6 +32,8 @@
     %journal_add_account_created
 %%do_insert:
     // stack: new_acct_value=existing_balance, address
+    // Only now we know that no contract existed at this address (no collision).
+    DUP2 %append_created_contracts
     // Write the new account's data to MPT data, and get a pointer to it.
     %get_trie_data_size
     // stack: account_ptr, new_acct_value, address
-- 
2.43.0


From b20ec16953ab37b0dd278b327b09619db9f57e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:39 +0000
Subject: [PATCH 24/27] fix: leave no return data after a CREATE whose code is
 rejected

A creation that fails because its code starts with 0xEF or is too large left
the rejected code visible as return data of the creating frame.
---
 evm_arithmetization/src/cpu/kernel/asm/core/create.asm | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/create.asm b/evm_arithmetization/src/cpu/kernel/asm/core/create.asm
index 1c8e57e..71d2c2a 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/create.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/create.asm
@@ -225,12 +225,14 @@ create_collision:
 // stack: new_ctx, leftover_gas, success, address, kexit_info
 create_first_byte_ef:
     %revert_checkpoint
+    %mstore_context_metadata(@CTX_METADATA_RETURNDATA_SIZE, 0)
     %stack (leftover_gas, success, address, kexit_info) -> (kexit_info, 0)
     EXIT_KERNEL
 
 // stack: code_size, new_ctx, leftover_gas, success, address, kexit_info
 create_code_too_large:
     %revert_checkpoint
+    %mstore_context_metadata(@CTX_METADATA_RETURNDATA_SIZE, 0)
     %stack (code_size, leftover_gas, success, address, kexit_info) -> (kexit_info, 0)
     EXIT_KERNEL
 
-- 
2.43.0


From df88a39e3cd44c3c0bc2e4e6123578fdf72e190c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:58 +0000
Subject: [PATCH 25/27] fix: journal every SELFDESTRUCT

A contract created in this transaction that self-destructed without balance
in favour of an account that does not exist was put on the self-destruct
list without a journal entry: it was deleted at the end of the transaction
even if the frame had been reverted.
---
 .../src/cpu/kernel/asm/core/terminate.asm     | 26 -------------------
 .../kernel/asm/journal/account_destroyed.asm  |  6 +++++
 2 files changed, 6 insertions(+), 26 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/terminate.asm b/evm_arithmetization/src/cpu/kernel/asm/core/terminate.asm
index 2e3482e..78793c4 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/terminate.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/terminate.asm
@@ -109,34 +109,8 @@ global sys_selfdestruct:
     %add_eth
 
 sys_selfdestruct_journal_add:
-    // stack: address, recipient, balance, kexit_info
-    DUP3 ISZERO
-
-    // If balance is 0, we didn't perform any transfer. Hence, the recipient
-    // may not exist, and we need to verify this before adding a new journal entry.
-
-    // stack: balance=0, address, recipient, balance, kexit_info
-    %jumpi(skip_journal_entry_if_nonexistent)
-
-sys_selfdestruct_journal_add_after_check:
     // stack: address, recipient, balance, kexit_info
     %journal_add_account_destroyed
-    %jump(sys_selfdestruct_exit)
-
-skip_journal_entry_if_nonexistent:
-    // stack: address, recipient, balance, kexit_info
-    DUP2 %is_non_existent
-
-    // If the account doesn't exist, there is no need to add a journal entry.
-    // stack: recipient_is_non_existent, address, recipient, balance, kexit_info
-    %jumpi(skip_journal_entry)
-
-    // stack: address, recipient, balance, kexit_info
-    %jump(sys_selfdestruct_journal_add_after_check)
-
-skip_journal_entry:
-    // stack: address, recipient, balance, kexit_info
-    %pop3
 
 sys_selfdestruct_exit:
     // stack: kexit_info
diff --git a/evm_arithmetization/src/cpu/kernel/asm/journal/account_destroyed.asm b/evm_arithmetization/src/cpu/kernel/asm/journal/account_destroyed.asm
index d62f3d4..10bec01 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/journal/account_destroyed.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/journal/account_destroyed.asm
@@ -13,6 +13,8 @@ global revert_account_destroyed:
     %jump(remove_selfdestruct_list)
 revert_account_destroyed_contd:
     // stack: address, target, prev_balance, retdest
+    // If the balance was 0, nothing was transferred and `target` may not exist.
+    DUP3 ISZERO %jumpi(revert_account_destroyed_no_transfer)
     SWAP1
     // Remove `prev_balance` from `target`'s balance.
     // stack: target, address, prev_balance, retdest
@@ -36,3 +38,7 @@ revert_account_destroyed_contd:
     // stack: account_balance_payload_ptr, prev_balance, retdest
     %mstore_trie_data
     JUMP
+
+revert_account_destroyed_no_transfer:
+    // stack: address, target, prev_balance, retdest
+    %pop3 JUMP
-- 
2.43.0


From fef1ec3b2659d442f80c7c3323b41d498bd58314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:58 +0000
Subject: [PATCH 26/27] fix: do not reject empty code because of an earlier
 call's return data

The first byte of new code was compared with 0xEF even if the code is empty,
in which case the byte is one that an earlier call returned.
---
 evm_arithmetization/src/cpu/kernel/asm/core/create.asm | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/create.asm b/evm_arithmetization/src/cpu/kernel/asm/core/create.asm
index 71d2c2a..4f04502 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/create.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/create.asm
@@ -153,7 +153,10 @@ after_constructor:
     GET_CONTEXT
     %build_address_no_offset
     MLOAD_GENERAL
-    %eq_const(0xEF) %jumpi(create_first_byte_ef)
+    %eq_const(0xEF)
+    // The segment may hold an earlier call's data if the code is empty.
+    %returndatasize MUL
+    %jumpi(create_first_byte_ef)
 
     // Charge gas for the code size.
     // stack: leftover_gas, success, address, kexit_info
-- 
2.43.0


From e8674eb3bfe3548a07713f14f3522dfd5d131122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:23 +0000
Subject: [PATCH 27/27] fix: search transient storage entry by entry

The search moved on by one word instead of the three of an entry, so that a
slot or value equal to the address, followed by a word equal to the slot,
was taken for an entry: TLOAD returned and TSTORE overwrote the wrong word.
---
 .../src/cpu/kernel/asm/memory/transient_storage.asm             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/memory/transient_storage.asm b/evm_arithmetization/src/cpu/kernel/asm/memory/transient_storage.asm
index 8aa32c3..6d625da 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/memory/transient_storage.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/memory/transient_storage.asm
@@ -56,7 +56,7 @@ search_transient_storage_loop:
     %jumpi(search_transient_storage_found)
 increment_and_loop:
     // stack: i, len, addr, key, retdest
-    %increment
+    %add_const(3) // An entry holds three words.
     %jump(search_transient_storage_loop)
 
 search_transient_storage_not_found:
-- 
2.43.0

