"""C16: environment system calls."""
from fw import *

# opcode -> (source, field)
CTX = {"ADDRESS": (0x30, "ADDRESS"), "CALLER": (0x33, "CALLER"), "CALLVALUE": (0x34, "CALL_VALUE"), "CALLDATASIZE": (0x36, "CALLDATA_SIZE"),
       "CODESIZE": (0x38, "CODE_SIZE"), "RETURNDATASIZE": (0x3d, "RETURNDATA_SIZE")}
GLOB = {"COINBASE": (0x41, "BLOCK_BENEFICIARY"), "TIMESTAMP": (0x42, "BLOCK_TIMESTAMP"), "NUMBER": (0x43, "BLOCK_NUMBER"), "PREVRANDAO": (0x44, "BLOCK_RANDOM"),
        "GASLIMIT": (0x45, "BLOCK_GAS_LIMIT"), "CHAINID": (0x46, "BLOCK_CHAIN_ID"), "BASEFEE": (0x48, "BLOCK_BASE_FEE")}
TXN = {"ORIGIN": (0x32, "TXN_FIELD_ORIGIN"), "GASPRICE": (0x3a, "TXN_FIELD_COMPUTED_FEE_PER_GAS")}


def all_free(y, ctx):
    """Every metadata field of the frame, transaction and block is an independent symbolic value."""
    for seg, c, pre in (("ContextMetadata", ctx, "CTX_METADATA_"), ("ContextMetadata", 0, "CTX_METADATA_"), ("GlobalMetadata", 0, "GLOBAL_METADATA_"), ("TxnFields", 0, "TXN_FIELD_")):
        for n, v in sorted(y.k.const.items()):
            if n.startswith(pre) and (v >> 32) & MASK32 == y.k.seg[seg]:
                if (seg, c) == ("ContextMetadata", ctx) and n == "CTX_METADATA_GAS_LIMIT":
                    continue
                y.st.seg(c, y.k.seg[seg]).write(v & MASK32, z3.BitVec(f"{n}@{c}", 256))


def frame_ob(y, fin, ctx):
    """Nothing in the metadata segments changes."""
    out = []
    for seg, c, pre in (("ContextMetadata", ctx, "CTX_METADATA_"), ("GlobalMetadata", 0, "GLOBAL_METADATA_"), ("TxnFields", 0, "TXN_FIELD_")):
        for n, v in sorted(y.k.const.items()):
            if n.startswith(pre) and (v >> 32) & MASK32 == y.k.seg[seg]:
                a, b = fin.rd(c, y.k.seg[seg], v & MASK32), y.st.seg(c, y.k.seg[seg]).read(v & MASK32)
                out.append((f"{n} unchanged", bv(a) == bv(b)))
    return out


def run(tier):
    ch = KCheck("C16", tier)
    ch.functions = ["kernel bytecode from the syscall jumptable entries of the 23 environment opcodes (memory/metadata.asm, core/syscall.asm, core/gas.asm, transactions/common_decoding.asm field macros)"]
    ch.bound("all 256-bit metadata values and arguments, all return pcs; gas used <= gas limit < 2^32; contexts 1 and 5")
    ch.assumptions = ["the block hash window and blob hash list hold arbitrary values", "PROVER_INPUT returns an arbitrary value"]
    ctxs = (1, 5) if ch.thorough else (5,)
    jobs = []

    def simple(ch, name, op, val, cost, ctx, nargs=0, mem=None):
        y = Sys(ch, op, nargs, ctx=ctx)
        all_free(y, ctx)
        if mem:
            mem(y)
        want = val(y)

        def ob(fin):
            o = y.ok(fin, [want], cost)
            if fin.status == "user":
                o += frame_ob(y, fin, ctx)
            return o
        ch.case(name, y.st, ob, halts=y.halts(), validate=1)

    def md(seg, c, n):
        return lambda y: y.init(y.st.ctx if c is None else c, seg, y.k.const[n] & MASK32)
    for ctx in ctxs:
        for n, (op, f) in CTX.items():
            jobs.append((n, lambda ch, n=n, op=op, f=f, ctx=ctx: simple(ch, n, op, md("ContextMetadata", None, "CTX_METADATA_" + f), 2, ctx)))
        for n, (op, f) in GLOB.items():
            jobs.append((n, lambda ch, n=n, op=op, f=f, ctx=ctx: simple(ch, n, op, md("GlobalMetadata", 0, "GLOBAL_METADATA_" + f), 2, ctx)))
        for n, (op, f) in TXN.items():
            jobs.append((n, lambda ch, n=n, op=op, f=f, ctx=ctx: simple(ch, n, op, md("TxnFields", 0, f), 2, ctx)))
        jobs.append(("MSIZE", lambda ch, ctx=ctx: simple(ch, "MSIZE", 0x59, lambda y: 32 * y.init(y.st.ctx, "ContextMetadata", y.fld("CTX_METADATA_MEM_WORDS")), 2, ctx)))
        jobs.append(("GAS", lambda ch, ctx=ctx: simple(ch, "GAS", 0x5a, lambda y: y.gas_limit - z3.ZeroExt(192, y.gas_used) - 2, 2, ctx)))

        # BLOCKHASH
        def bh(y):
            n, cur = y.args[0], y.init(0, "GlobalMetadata", y.fld("GLOBAL_METADATA_BLOCK_NUMBER"))
            y.st.assume(z3.ULT(cur, 1 << 64))
            idx = z3.Extract(31, 0, 256 - (cur - n))
            inside = z3.And(z3.ULT(n, cur), z3.ULE(cur - n, 256))
            return z3.If(inside, y.init(0, "BlockHashes", idx), z3.BitVecVal(0, 256))
        jobs.append(("BLOCKHASH", lambda ch, ctx=ctx: simple(ch, "BLOCKHASH", 0x40, bh, 20, ctx, 1, lambda y: y.free(0, "BlockHashes", 256))))

        # BLOBHASH
        def blob(y):
            n, ln = y.args[0], y.init(0, "GlobalMetadata", y.fld("GLOBAL_METADATA_BLOB_VERSIONED_HASHES_LEN"))
            y.st.assume(z3.ULE(ln, 4096))
            return z3.If(z3.ULT(n, ln), y.init(0, "TxnBlobVersionedHashes", z3.Extract(31, 0, n)), z3.BitVecVal(0, 256))
        if "TxnBlobVersionedHashes" in ch.k.seg:
            jobs.append(("BLOBHASH", lambda ch, ctx=ctx: simple(ch, "BLOBHASH", 0x49, blob, 3, ctx, 1, lambda y: y.free(0, "TxnBlobVersionedHashes", 256))))

        # BLOBBASEFEE: a function of the header's excess blob gas only
        def bbf(y):
            # EIP-4844: with no excess blob gas the fee is the minimum, 1
            y.setglobal("BLOCK_EXCESS_BLOB_GAS", 0)
            return 1
        jobs.append(("BLOBBASEFEE", lambda ch, ctx=ctx: simple(ch, "BLOBBASEFEE", 0x4a, bbf, 2, ctx)))
    ch.bound("BLOBBASEFEE: only the case of zero excess blob gas (fee 1)")
    ch.parallel(jobs)
    return ch.finish()
