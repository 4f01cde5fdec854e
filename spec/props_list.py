HOOK_COMMITS = ["3c2ffab"]
TODO = "check not built yet"

prop("C01", "Arithmetic table: ADD, SUB, LT, GT and MUL rows are sound",
  "A row of the arithmetic table that satisfies all constraints and claims ADD, SUB, LT, GT or MUL carries exactly the EVM result of the two 256-bit operands it carries, for all operands. No choice of auxiliary columns can make a wrong result acceptable, and at most one operation is claimed per row.",
  ["inputs"], "every assignment of field elements to a row whose range-checked columns hold 16-bit limbs",
  "Tests evaluate the constraints on honestly generated random rows only; unsoundness shows on rows no honest prover produces.",
  [E+"arithmetic/addcy.rs", E+"arithmetic/mul.rs", E+"arithmetic/arithmetic_stark.rs", E+"arithmetic/columns.rs", E+"arithmetic/utils.rs"],
  [("eval_packed_generic of addcy and mul", E+"arithmetic/"), ("16-bit range check lookup", E+"arithmetic/arithmetic_stark.rs")],
  ["constraint polynomials of the arithmetic table"], SMTS, na=TODO, hook=HK)
prop("C02", "Arithmetic table: division and modular rows are sound",
  "A pair of arithmetic-table rows that satisfies all constraints and claims DIV, MOD, ADDMOD, MULMOD, SUBMOD or an operation modulo the BN254 prime carries exactly the EVM result, including result zero for a zero divisor or modulus and a result strictly below the modulus otherwise. No choice of quotient or auxiliary columns can make another result acceptable.",
  ["inputs"], "every assignment of field elements to two consecutive rows whose range-checked columns hold 16-bit limbs",
  "Tests evaluate the constraints on honestly generated random rows only; a missing range or zero-divisor constraint is visible only on adversarial rows.",
  [E+"arithmetic/modular.rs", E+"arithmetic/divmod.rs", E+"arithmetic/arithmetic_stark.rs"],
  [("modular_constr_poly, submod_constr_poly", E+"arithmetic/modular.rs"), ("division reuse of modular", E+"arithmetic/divmod.rs")],
  ["constraint polynomials of the arithmetic table"], SMTS, na=TODO, hook=HK)
prop("C03", "Arithmetic table: BYTE, SHL and SHR rows are sound",
  "Arithmetic-table rows that satisfy all constraints and claim BYTE, SHL or SHR carry exactly the EVM result for every 256-bit index or shift amount, including amounts of 256 and more, where shifts relate to the power of two that the CPU table ties to the shift amount. No choice of auxiliary columns can make another result acceptable.",
  ["inputs"], "every assignment of field elements to the row(s) within the range checks",
  "Tests try random honest rows; large indices and adversarial decompositions are not reached.",
  [E+"arithmetic/byte.rs", E+"arithmetic/shift.rs", E+"cpu/shift.rs"],
  [("byte eval_packed", E+"arithmetic/byte.rs"), ("shift eval_packed", E+"arithmetic/shift.rs")],
  ["constraint polynomials of the arithmetic table and of the CPU shift rows"], SMTS, na=TODO, hook=HK)
prop("C04", "Logic table: AND, OR and XOR rows are sound",
  "A row of the logic table that satisfies all constraints and is claimed by the cross-table lookup carries the bitwise AND, OR or XOR selected by its opcode flag of its two 256-bit inputs, limb by limb. Bit decompositions are boolean and unique.",
  ["inputs"], "every assignment of field elements to a row",
  "Tests only run honest traces; a missing booleanity or limb constraint never shows there.",
  [E+"logic.rs"], [("LogicStark::eval_packed_generic", E+"logic.rs")], ["constraint polynomials of the logic table"], SMTS, na=TODO, hook=HK)
prop("C05", "Byte-packing table: packed word equals the addressed bytes",
  "A row of the byte-packing table that satisfies all constraints represents a sequence of one to thirty-two bytes at consecutive addresses, and the word it exposes is the big-endian value of exactly those bytes; read/write direction, address and timestamp reach the memory table unchanged. Padding rows contribute nothing.",
  ["inputs"], "every assignment of field elements to two consecutive rows whose byte columns are range-checked, for every length",
  "Tests only use honest sequences; selector flags that are non-boolean or inconsistent with the length are never generated.",
  [E+"byte_packing/byte_packing_stark.rs", E+"byte_packing/columns.rs"],
  [("length flags and byte range check", E+"byte_packing/byte_packing_stark.rs"), ("memory CTL per byte", E+"byte_packing/byte_packing_stark.rs")],
  ["constraint polynomials and cross-table lookups of the byte-packing table"], SMTS, na=TODO, hook=HK)
prop("C06", "Memory table: a read returns the last value written",
  "In any two consecutive rows of the memory table that satisfy all constraints and the range checks, rows are ordered by address and then by time, a read at an address equal to the previous row's repeats its value, and the first access of an address that is neither preinitialised nor carried over reads zero. Hence no prover-chosen ordering or auxiliary value can make a read return anything but the latest write.",
  ["inputs", "histories"], "every assignment of field elements to two consecutive rows within the range checks",
  "Tests generate honest sorted traces; forged orderings, wrap-arounds and fake first-change flags are outside them.",
  [E+"memory/memory_stark.rs", E+"memory/columns.rs"],
  [("first-change flags and range check", E+"memory/memory_stark.rs")], ["constraint polynomials and lookups of the memory table"], SMTS, na=TODO, hook=HK)
prop("C26", "Memory continuation: exactly the final values of live contexts are handed on",
  "MemBefore rows are exactly the writes at time 0 of the memory table and MemAfter rows are exactly the final values: for every accessed address whose context was not pruned by the CPU, the last value in address/time order is in MemAfter once with its own address, save zero values of segments that are zero-initialised; no earlier value, no value of an address that was never accessed and no value of a pruned context is there. A context counts as pruned only if the CPU executed a pruning SET_CONTEXT in it.",
  ["inputs", "histories"], "every assignment of field elements to up to four consecutive rows, including the first and the last row",
  "Tests generate honest traces only; a prover that drops or duplicates a value between two segments is outside them.",
  [E+"memory/memory_stark.rs", E+"memory_continuation/memory_continuation_stark.rs", E+"all_stark.rs", E+"cpu/contextops.rs"],
  [("maybe_in_mem_after, mem_after_filter, is_stale", E+"memory/memory_stark.rs"), ("ctl_mem_before, ctl_mem_after, ctl_context_pruning", E+"all_stark.rs")], ["constraint polynomials, lookups and CTLs of the memory and continuation tables"], SMTS, na=TODO, hook=HK)
prop("C07", "Keccak tables: a row chain is the Keccak-f permutation and the sponge",
  "Any accepted sequence of 24 rows of the permutation table maps its 1600-bit input to the Keccak-f[1600] output, one round per row with the right round constant, and any accepted sponge row absorbs exactly the addressed bytes with correct padding and block order. No auxiliary columns can alter the digest handed to the CPU.",
  ["inputs"], "every assignment of field elements to consecutive rows, for each of the 24 rounds and each final-block length",
  "Tests check a few honest permutations; adversarial intermediate columns are never tried.",
  [E+"keccak/keccak_stark.rs", E+"keccak/logic.rs", E+"keccak/round_flags.rs", E+"keccak/constants.rs", E+"keccak_sponge/keccak_sponge_stark.rs"],
  [("round constraints", E+"keccak/keccak_stark.rs"), ("padding and state update", E+"keccak_sponge/keccak_sponge_stark.rs")],
  ["constraint polynomials of the keccak and sponge tables"], SMTS, na=TODO, hook=HK)
prop("C08", "CPU table: decoding is unambiguous and kernel-only opcodes are privileged",
  "In every accepted CPU row at most one operation flag is set, it is the flag of the opcode byte that is decoded, and in user mode none of the kernel-only operations can be claimed; opcodes undefined in the EVM can only raise an exception. A prover cannot execute another instruction than the one the code holds.",
  ["inputs"], "every opcode byte, both modes, every assignment of the other columns",
  "Tests execute honest traces; a forged flag on a legal opcode never occurs there.",
  [E+"cpu/decode.rs", E+"cpu/cpu_stark.rs", E+"cpu/columns/ops.rs"], [("opcode flag blocks", E+"cpu/decode.rs")], ["constraint polynomials of the CPU table"], SMTS, na=TODO, hook=HK)
prop("C09", "CPU table: control flow and privilege transitions are sound",
  "For every accepted pair of consecutive CPU rows, the next program counter, kernel flag, context and clock are those of the executed instruction: sequential steps, taken and untaken jumps (with a valid jump destination required in user mode), system calls and exceptions entering the kernel at the table-given handler with the return state saved, and the privileged exit restoring it. User code can enter the kernel in no other way.",
  ["inputs"], "every pair of rows with arbitrary columns satisfying the constraints, for every operation",
  "Tests run honest traces; forged next-row registers are never generated.",
  [E+"cpu/control_flow.rs", E+"cpu/jumps.rs", E+"cpu/syscalls_exceptions.rs", E+"cpu/halt.rs", E+"cpu/pc.rs", E+"cpu/clock.rs", E+"cpu/contextops.rs"],
  [("control_flow / jumps / syscalls_exceptions eval_packed", E+"cpu/")], ["constraint polynomials of the CPU table and the jumptable lookups"], SMTS, na=TODO, hook=HK)
prop("C10", "CPU table: stack effects of every instruction are sound",
  "For every accepted pair of consecutive CPU rows, the stack length changes by exactly the instruction's pushes minus pops, operands are read from and results written to the right stack slots of the current context, and the next top of stack is the instruction's result or the element below. The row makes no other memory access, and user code cannot grow its stack beyond 1024 elements. EQ, ISZERO, NOT, DUP, SWAP, POP, PUSH0, PC results are the exact EVM values.",
  ["inputs"], "every pair of rows with arbitrary columns satisfying the constraints, for every operation",
  "Tests run honest traces; forged operand reads, channel addresses or results are never generated.",
  [E+"cpu/stack.rs", E+"cpu/dup_swap.rs", E+"cpu/simple_logic/", E+"cpu/push0.rs", E+"cpu/pc.rs", E+"cpu/memio.rs"],
  [("stack behaviours", E+"cpu/stack.rs")], ["constraint polynomials of the CPU table"], SMTS, na=TODO, hook=HK)
prop("C11", "CPU table: native gas is charged exactly",
  "For every accepted pair of consecutive CPU rows the gas counter grows by exactly the EVM base cost of the executed native instruction (for example 3 for ADD, 5 for MUL, 8 for JUMP, 10 for JUMPI, 1 for JUMPDEST) and by nothing for the instructions that only the kernel has. Entering the kernel saves the counter in the pushed return word and restarts it at zero, and leaving the kernel restores the counter from the popped word.",
  ["inputs"], "every opcode, both modes, every assignment of the remaining columns",
  "Tests compare a few total gas values on honest runs.",
  [E+"cpu/gas.rs"], [("accumulate gas", E+"cpu/gas.rs")], ["constraint polynomials of the CPU table"], SMTS, na=TODO, hook=HK)
prop("C12", "Cross-table lookups tie each instruction to the right operation",
  "For every instruction that is proved in another table, the operation code, operands, result, address, length, timestamp and direction that the CPU row exposes are exactly the ones the other table's row proves, with the timestamp of the row's own cycle. Every instruction makes exactly the lookups it needs and no other, each is counted once or not at all in every table, and exactly the contexts that SET_CONTEXT is asked to give up are reported as pruned.",
  ["inputs"], "every opcode and every assignment of the columns of the rows on both sides",
  "Tests prove a handful of small programs with an honest prover, which keeps proving when a lookup constrains too little.",
  [E+"all_stark.rs", E+"cpu/cpu_stark.rs", E+"arithmetic/arithmetic_stark.rs", E+"logic.rs"],
  [("all_cross_table_lookups", E+"all_stark.rs")], ["cross-table lookup column combinations and filters"], SMTS, na=TODO, hook=HK)
prop("C13", "Kernel: signed and emulated arithmetic opcodes return the EVM result",
  "For all 256-bit operands SDIV, SMOD, SLT, SGT, SAR and SIGNEXTEND executed from user code return exactly the EVM result, including division by zero, the minimum negative value divided by minus one, and out-of-range shift or extension amounts. They charge exactly their EVM gas, or end in the out-of-gas exception, and leave the rest of the stack untouched.",
  ["inputs"], "all operand values, return addresses and gas counters",
  "Tests sample random operands; boundary operands of 256-bit functions are not exhaustible.",
  [K+"signed.asm", K+"core/syscall.asm", E+"cpu/kernel/assembler.rs", E+"cpu/kernel/stack/stack_manipulation.rs"],
  [("_sys_sdiv and siblings", K+"signed.asm")], ["user-visible stack, gas and program counter after the instruction"], SMTK, na=TODO, hook=HM)
prop("C14", "Kernel: EXP returns base^exponent mod 2^256 with exact gas",
  "EXP executed from user code returns the base raised to the exponent modulo 2^256 for all operands, with zero to the zero equal to one. It charges ten gas plus fifty per significant exponent byte, or ends in the out-of-gas exception.",
  ["inputs"], "all bases; exponents up to a bit bound for the result, all exponents for gas",
  "Tests sample a few pairs.", [K+"exp.asm"], [("_sys_exp loop", K+"exp.asm")], ["stack and gas after the instruction"], SMTK, na=TODO, hook=HM)
prop("C15", "Kernel: memory opcodes move exactly the right bytes and charge expansion",
  "MLOAD, MSTORE, MSTORE8, MCOPY and the CALLDATA, CODE and RETURNDATA loads and copies transfer exactly the bytes the EVM prescribes, zero-filling reads beyond the end of the source, for every offset and length, including huge ones, which must end in out-of-gas. They charge the static, per-word and quadratic expansion gas exactly and record the new memory size; a RETURNDATACOPY beyond the return data fails.",
  ["inputs"], "all offsets and sizes (256-bit) up to a byte-count bound for the copied data, all contents",
  "Tests use a few hand-picked offsets.", [K+"memory/"], [("syscalls and memcpy", K+"memory/"), ("update_mem_bytes", K+"memory/metadata.asm")], ["memory, gas and stack after the instruction"], SMTK, na=TODO, hook=HM)
prop("C16", "Kernel: environment opcodes report the right value",
  "ADDRESS, ORIGIN, CALLER, CALLVALUE, CALLDATASIZE, CODESIZE, GASPRICE, RETURNDATASIZE, COINBASE, TIMESTAMP, NUMBER, PREVRANDAO, GASLIMIT, CHAINID, BASEFEE, BLOBBASEFEE, BLOBHASH, BLOCKHASH, MSIZE, PC and GAS push the value of the current frame, transaction or block and charge their exact gas. BLOCKHASH returns zero outside the last 256 blocks and BLOBHASH zero outside the transaction's blob list.",
  ["inputs"], "all metadata values, arguments and gas counters", "Tests check some opcodes for one value.",
  [K+"core/syscall.asm", K+"memory/syscalls.asm", K+"memory/metadata.asm"], [("sys_* handlers", K+"")], ["stack and gas after the instruction"], SMTK, na=TODO, hook=HM)
prop("C17", "Kernel: exceptions are raised only when real and consume the frame's gas",
  "When the CPU raises an exception, the kernel accepts it only if its cause really holds (invalid opcode byte, stack below the opcode's minimum, stack above the limit, invalid jump target, gas above the limit); otherwise proving fails. An accepted exception fails the current frame, reverts its state changes and consumes all its gas.",
  ["inputs", "fault_sequences"], "every exception code, opcode byte, stack length, jump target, gas counter, in user mode",
  "An honest prover raises exceptions only when they are due, so tests never exercise a forged one.",
  [K+"core/exception.asm"], [("exc_* handlers and their assertions", K+"core/exception.asm")], ["panic or frame termination"], SMTK, na=TODO, hook=HM)
prop("C18", "Kernel: warm/cold access lists are exact whatever the prover hints",
  "Whatever node pointers the prover supplies, checking or inserting an address or storage slot in the access lists reports it warm exactly if it was accessed before in the transaction, keeps the list sorted without losing or duplicating entries, or proving fails. Cold and warm accesses are charged accordingly.",
  ["inputs", "histories"], "every well-formed list up to a size bound, every key, every prover hint",
  "Tests use the honest prover's hints only.", [K+"core/access_lists.asm"], [("insert_accessed_addresses / insert_accessed_storage_keys", K+"core/access_lists.asm")], ["returned flag, list content, panic"], SMTK, na=TODO, hook=HM)
prop("C19", "Kernel: account and storage linked lists are exact whatever the prover hints",
  "Whatever hints the prover supplies, reading, inserting, updating or removing an account or a storage slot in the state linked lists acts on exactly the requested key, keeps the list sorted and complete, and reports absence only of absent keys; otherwise proving fails.",
  ["inputs", "histories"], "every well-formed list up to a size bound, every key and value, every prover hint",
  "Tests use the honest prover's hints only.", [K+"mpt/linked_list/"], [("insert/search/remove macros", K+"mpt/linked_list/")], ["returned pointers, list content, panic"], SMTK, na=TODO, hook=HM)
prop("C20", "Kernel: only real JUMPDEST bytes become valid jump targets",
  "Whatever proof table the prover supplies, after jumpdest analysis a position is marked a valid jump target only if it holds the JUMPDEST opcode and is not push data. Targets at or beyond the code size are never valid, and a target is accepted as invalid only if it is.",
  ["inputs"], "every code content up to a length bound, every prover-supplied table", "Tests use honest tables on a few code strings.",
  [K+"core/jumpdest_analysis.asm"], [("verify_path / write_table_if_jumpdest", K+"core/jumpdest_analysis.asm")], ["jump-destination bits after analysis"], SMTK, na=TODO, hook=HM)
prop("C21", "Kernel: reverting to a checkpoint restores the state exactly",
  "After a checkpoint is reverted, every balance, nonce, code hash, storage and transient slot, touched or destroyed account, access-list entry, self-destruct, refund counter and log recorded since that checkpoint is back at its value at the checkpoint, and nothing older changes.",
  ["inputs", "histories"], "each kind of journal entry with arbitrary recorded values and bounded sequences of them",
  "Tests revert a few scripted call sequences.", [K+"journal/"], [("add_X / revert_X pairs", K+"journal/")], ["memory after revert"], SMTK, na=TODO, hook=HM)
prop("C22", "Kernel: RLP encoding and decoding are exact and canonical",
  "The kernel's RLP encoder emits the canonical encoding of every scalar, fixed-length string and list prefix, and its decoder recovers exactly the encoded lengths and values or fails on input that is not canonical.",
  ["inputs"], "all scalars, all lengths that fit the prefixes", "Tests use a few values.",
  [K+"rlp/"], [("encode_rlp_*, decode_rlp_*", K+"rlp/")], ["bytes written, values returned"], SMTK, na="not built: the kernel's RLP code was left for its callers' properties; transactions and receipts are only covered by the repository's own tests (the payload side of RLP is C33 and C35 in the trie crates)", hook=HM)
prop("C23", "Kernel: transactions are decoded, validated and charged exactly",
  "Transaction fields are read from the signed RLP exactly, for every supported type; intrinsic gas, effective fee, priority fee and blob fee follow the protocol formulas; and a transaction whose nonce, fee, gas limit or balance is invalid is rejected.",
  ["inputs"], "all field values and bounded data and access-list lengths", "Tests replay a few transactions.",
  [K+"transactions/", K+"core/process_txn.asm", K+"core/intrinsic_gas.asm"], [("process_type_N_txn, intrinsic_gas, compute_fees", K+"")], ["normalized fields, fees, panic"], SMTK, na="not built: a transaction's processing spans many thousands of symbolic kernel steps with nested RLP parsing, which the path-by-path engine does not finish within the time of a check", hook=HM)
prop("C24", "Kernel: value transfers conserve the total balance",
  "Crediting, debiting and transferring value change exactly the balances of the named accounts by exactly the amount, never wrap around, fail without effect when the balance is insufficient or the sender is absent, and conserve the sum of balances (assumed below 2^256).",
  ["inputs"], "all balances and amounts, existing and absent accounts, same sender and recipient", "Tests use a few amounts.",
  [K+"core/transfer.asm"], [("transfer_eth, deduct_eth, add_eth", K+"core/transfer.asm")], ["balances and returned status"], SMTK, na=TODO, hook=HM)
prop("C43", "Kernel: transient storage holds each slot's last value",
  "TLOAD returns the value last stored by TSTORE in that slot of the current account in this transaction, or zero, and TSTORE changes that slot only, for all accounts, slots and values, including slots and values that look like addresses. Both charge 100 gas, TSTORE fails in a static frame and journals the value it replaces.",
  ["inputs", "histories"], "every transient storage up to a size bound, every account, slot, value and gas counter",
  "Tests store a few slots whose words never coincide with addresses.",
  [K+"memory/transient_storage.asm", K+"journal/transient_storage_change.asm"], [("search_transient_storage, sys_tload, sys_tstore", K+"memory/transient_storage.asm")], ["stack, gas, transient storage, journal"], SMTK, na=TODO, hook=HM)
prop("C25", "Kernel: SSTORE and SLOAD charge and refund per EIP-2200/2929/3529",
  "For every combination of original, current and new value and of warm and cold slot, SLOAD and SSTORE charge exactly the protocol gas, adjust the refund counter exactly, store exactly the new value and fail in a static frame or at or below the 2300 gas stipend.",
  ["inputs"], "all value triples, access status, gas counters", "Tests cover a few of the case combinations.",
  [K+"mpt/storage/storage_write.asm", K+"mpt/storage/storage_read.asm", K+"core/gas.asm", K+"core/access_lists.asm", E+"cpu/kernel/constants/mod.rs"], [("sys_sstore, sys_sload", K+"")], ["gas, refund counter, stored value"], SMTK, na=TODO, hook=HM)
prop("C31", "Nibble strings form an exact sequence algebra",
  "Pushing, popping, slicing, merging, reversing, comparing, common-prefix, hex-prefix and byte conversion operations on nibble strings of up to 64 nibbles agree with the same operations on plain digit sequences.",
  ["inputs"], "all nibble strings up to the stated length", "Tests sample random strings.",
  ["mpt_trie/src/nibbles.rs"], [("Nibbles", "mpt_trie/src/nibbles.rs")], ["results of the public functions"], "symbolic execution of the compiled Rust code (LLVM IR) with z3")
M = "mpt_trie/src/"
S = "smt_trie/src/"
SX = "symbolic execution of the compiled Rust code (LLVM IR) with z3"
prop("C32", "Partial Merkle tries behave as maps, whatever the history",
  "After any sequence of insertions and deletions of keys, none of which is a prefix of another, a trie holds exactly the entries of the corresponding map: lookups, iteration and removals return them, a deletion returns the removed value, and the trie equals the one built by inserting its entries directly.",
  ["inputs", "histories"], "all histories of bounded length over the stated key families, all values", "Tests sample random keys.",
  [M+"trie_ops.rs", M+"partial_trie.rs"], [("insert, get, delete, items", M+"trie_ops.rs")], ["results of the public functions"], SX)
prop("C33", "Trie roots equal the Merkle-Patricia root of the entries",
  "The hash of a trie is the Merkle-Patricia root of its entries as the yellow paper defines it, including embedded nodes and every RLP length form. This stays so when hashes are cached, when the trie changes after hashing, and when a clone of it changes.",
  ["inputs", "histories"], "all entries within the bounds, all orders of hashing, cloning and updating", "Tests compare a few tries with another implementation.",
  [M+"trie_hashing.rs", M+"partial_trie.rs"], [("hash_trie", M+"trie_hashing.rs"), ("cached hashes", M+"partial_trie.rs")], ["root hash"], SX)
prop("C34", "Trie subsets keep the root and all that is needed, and hide the rest",
  "A subset of a trie for a set of keys has the trie's root, answers lookups of those keys as the trie does and hashes out the rest. Reads and updates carried out on the subset either agree with the full trie or fail, and a subset shows no trace of subsets made before.",
  ["inputs", "histories"], "all tries, key sets and updates within the bounds", "Tests sample random tries.",
  [M+"trie_subsets.rs"], [("create_trie_subset", M+"trie_subsets.rs")], ["subset, its root and lookups"], SX)
prop("C35", "Tries rebuilt from proofs have the proven root and entries",
  "The builder fed with the nodes of inclusion or exclusion proofs returns a trie with the given root that answers lookups of the proven keys as the original trie does, also when nodes are embedded in their parents. Updates of it agree with the original trie or fail.",
  ["inputs"], "all tries and proven keys within the bounds", "Tests rebuild one recorded trie.",
  [M+"builder.rs"], [("PartialTrieBuilder", M+"builder.rs")], ["trie, its root and lookups"], SX)
prop("C36", "Sparse Merkle tree is a map with a canonical root",
  "After any sequence of sets and deletions the tree returns the last value set for every key and zero for all others, and its root is the Poseidon root that the Polygon Hermez definition gives to the set of non-zero entries, whatever the history.",
  ["inputs", "histories"], "all histories of bounded length over the stated key families, all values", "Tests sample random keys, which meet in their first bits only.",
  [S+"smt.rs", S+"utils.rs", S+"db.rs"], [("Smt::set, get, delete", S+"smt.rs")], ["root and lookups"], SX)
prop("C38", "Batch payloads of a block are chained, exact and sufficient",
  "For every block trace the payloads start from the state, transaction and receipt tries the previous one ends with, cover the transactions once and in order, and their final roots are those of the world the traces describe. Each masked trie keeps the roots and holds every node needed to read what the batch touches and to recompute the final roots.",
  ["inputs", "histories"], "all traces and batch sizes within the bounds, all values", "Tests decode a few recorded blocks, whose deletions hardly ever collapse a branch.",
  ["trace_decoder/src/core.rs", E+"tries.rs", E+"world.rs"], [("entrypoint, middle, batch, do_beacon_hook", "trace_decoder/src/core.rs"), ("Type1World", E+"world.rs"), ("typed tries, reporting_remove", E+"tries.rs")], ["GenerationInputs of every batch"], SX)
prop("C41", "Serialized and hashed-out sparse Merkle trees keep their root",
  "A serialization of a sparse Merkle tree hashes to the root of the tree, with or without pruning, answers every key it was made for with the value of the tree, and holds no leaf that no such key leads to. A tree that knows a subtree by its hash only has the same root as the full one.",
  ["inputs"], "all trees, pruning key lists and hashed-out nodes within the bounds", "Tests serialize random trees.",
  [S+"smt.rs"], [("serialize_and_prune, hash_serialize, set_hash", S+"smt.rs")], ["serialization, root"], SX)
prop("C42", "SMT keys, bit strings and bytecode hashes follow their definition",
  "Account, storage-slot and code keys and bytecode hashes are the Poseidon images that zkevm-commonjs defines, for every address, slot and code within the bounds. Splitting keys into path bits, joining them back and the bit-string operations are exact.",
  ["inputs"], "every address, slot and key; codes and bit strings of the stated lengths", "Tests compare two bytecodes and no key.",
  [S+"keys.rs", S+"code.rs", S+"bits.rs", S+"utils.rs"], [("key_*", S+"keys.rs"), ("hash_contract_bytecode", S+"code.rs"), ("Key::split, join", S+"smt.rs")], ["results of the public functions"], SX)
prop("C39", "Recursive aggregation circuits accept only valid proofs",
  "A verifying aggregated block proof implies that every aggregated segment, transaction and block proof verified and that their public values connect.",
  ["inputs"], "every proof", "Tests prove one instance.",
  [E+"fixed_recursive_verifier.rs", E+"recursive_verifier.rs"], [("circuit construction", E+"fixed_recursive_verifier.rs")], ["public inputs of the root circuit"],
  na="the circuits embed FRI verification with Poseidon hashing over millions of gates; soundness rests on a cryptographic argument that no bounded symbolic query can decide")
prop("C40", "The prover binary serves every request with a valid proof or an error",
  "The leader, worker and rpc services answer each request with a proof that verifies or with an error, independent of worker failures.",
  ["fault_sequences"], "every schedule of workers", "No tests.",
  ["zero/src/"], [("zero", "zero/src")], ["service responses"],
  na="crate zero cannot be built offline here (its paladin-core git dependency is absent), so its code cannot be encoded or replayed")
