# level_note of every claimed property
NOTES = {
"C01": "Exact over the Goldilocks field for every row the real constraints, range checks and CTL columns accept; no bound on operands. Row pairs for two-row operations. Assumes the STARK and CTL/lookup arguments of starky are sound and that the trace has fewer than 2^32 rows.",
"C02": "As C01; the 256/512-bit integer identity is derived from the polynomial identity with carry columns bounded by their range checks. Every value of operands, modulus and quotient.",
"C03": "As C01, plus the CPU row of SHL/SHR that forms the shift factor (the shift table lookup in segment ShiftTable is taken as the kernel initialises it).",
"C04": "As C01; every pair of 256-bit inputs, every flag assignment.",
"C05": "As C01; every length 1..32 and every byte value; memory contents and the memory table itself are C06.",
"C06": "Every pair of consecutive rows over the field, every declared segment; ordering of a whole trace follows by transitivity with fewer than 2^32 rows. The first row of a trace and preinitialised segments (by design) are outside.",
"C26": "Chains of up to four rows incl. first and last row; earlier operations at the same address by an inductive invariant over a column that the check searches for. Every declared segment.",
"C31": "Every value of every nibble; lengths 0..64 for the unary operations and splits, boundary lengths for pairs and ranges. Formatting, string parsing and ordering are outside.",
"C13": "Bounded in nothing but the gas counter (gas used <= limit < 2^32): operands are full 256-bit symbols. Starts at the syscall entry, assumes the CPU and memory tables implement the instructions (C01-C12).",
"C14": "Result: exponents enumerated up to 40 (quick) with a symbolic base plus an inductive step over the recursion for every exponent, multiplication uninterpreted modulo associativity and commutativity. Gas: every exponent.",
"C15": "Copied sizes are concrete (a small set quick, 0..100 thorough) plus all unaffordable sizes; offsets and contents symbolic; squares in the expansion cost are an uninterpreted monotone function whose models are re-evaluated with real arithmetic.",
"C16": "All metadata values and arguments symbolic. BLOBBASEFEE is a known finding: the value is an unconstrained prover input.",
"C07": "Every round of every 1600-bit state and every sponge row (all input lengths modulo the rate, first, inner and last rows); several blocks by induction over rows. The reference is Keccak-f written from its specification.",
"C08": "Exact over the field: every opcode byte, every CPU row accepted by the real constraints, against an independent decoding table.",
"C09": "Every opcode and every accepted pair of CPU rows, first and last rows included; jump destinations and jump tables are read through the memory table (C06).",
"C10": "Every opcode and every accepted pair of CPU rows; what the addressed memory holds is C06.",
"C11": "Every opcode in both modes, every accepted pair of CPU rows.",
"C12": "Column by column over every accepted row of both sides of every cross-table lookup. Kernel-mode PUSH is a known finding (by design not looked up).",
"C32": "Histories of up to three steps (five thorough), keys of 1..4 or 64 nibbles or RLP of an index, one symbolic byte per value.",
"C33": "Tries of up to three entries (four thorough); values at every RLP length limit; keccak256 is an uninterpreted injective function, so the check decides which bytes are hashed.",
"C34": "Tries of up to three entries; deletions that collapse next to a hashed-out sibling are outside (the caller vouches for those).",
"C35": "Tries of up to three entries; node data that is not a proof of the given root is outside (the builder trusts it).",
"C36": "Two keys that part at every depth, families of up to eight keys, histories of up to three steps (four thorough) and removals from five entries; key bits are concrete representatives, values symbolic; Poseidon takes one fixed value per class of equal inputs.",
"C38": "Blocks of up to two transactions (three thorough, five of one kind), six accounts and four slots chosen so that their hashed keys share nibbles; values symbolic; keccak256 exact on concrete data, one fixed value per class of equal inputs otherwise.",
"C41": "Trees of up to four entries, pruning lists of up to two keys (three thorough), every node hashed out; Poseidon as in C36.",
"C42": "Every address, slot and canonical key; codes of the lengths around every padding limit up to 169 bytes; bit strings of boundary lengths.",
"C17": "Every exception code, opcode byte, stack length, jump target and gas counter; jumpdest analysis on short codes as in C20; the failing frame with one journal entry. The jumpdest hint within 32 bytes of the target is a known finding.",
"C18": "Lists of up to three nodes (four thorough) with symbolic keys in every order of creation and deletion, every key, every hint (any 256-bit value, inside or outside the segment).",
"C19": "Lists of up to three nodes (four thorough) with symbolic keys, every key, every hint, plus sequences of operations with the hints the real prover computes.",
"C20": "Codes of up to 5 bytes (8 thorough) plus windows of 33 to 64 bytes with a symbolic push before the target; every proof table entry. A hint within 32 bytes below the target is a known finding.",
"C24": "Every address, amount and balance; sender and recipient existing, absent or equal, in every order, with a third account; honest list hints (C19 has the others).",
"C25": "Every original, current and new value, gas counter, limit, refund counter and static flag; slot cold or warm, present or absent, one other slot on either side; honest list hints.",
"C21": "Journals of one entry of every type (three of mixed types), nested checkpoints, up to three touched addresses, transient slots, self-destructs and list entries; the operations increment_nonce, set_codehash, add_eth, LOG and SELFDESTRUCT run before the revert; honest list hints.",
"C43": "Transient storage of up to two entries (three thorough) with symbolic words; all gas counters and limits below 2^32.",
}
