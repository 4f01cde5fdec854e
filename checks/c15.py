"""C15: memory system calls."""
from fw import *

B = lambda v: z3.BitVecVal(v, 256)
BIG = 1 << 26
MAXW = 400000   # words of memory already in use


def sq(w):
    return ops.mul(w, w)


def mcost(w):
    return low(ops.add(ops.mul(w, 3), ops.shr(9, sq(w))), 64)


def words(n):
    return ops.shr(5, ops.add(n, 31))


def cost_expand(y, fin, end):
    """(extra gas: 64 bits, new word count) of touching memory up to `end` (below 2^34)."""
    w = words(end)
    g = fin.resolve(z3.Not(ult(w, y.mw)))
    if g is True:
        return mcost(w) - mcost(y.mw), bv(w)
    if g is False:
        return z3.BitVecVal(0, 64), y.mw
    return z3.If(g, mcost(w) - mcost(y.mw), z3.BitVecVal(0, 64)), z3.If(g, bv(w), y.mw)


def sq_lemmas(st, ws):
    """True facts about the memory cost of numbers of words (the cost is an uninterpreted function)."""
    real = lambda w: 3 * w + w * w // 512
    for a in ws:
        if width(a) > 40:
            continue
        for t in (MAXW + 1, 1562500):
            st.assume(ult(a, t) == z3.ULT(mcost(a), real(t)))
        st.assume(z3.Implies(eqb(a, 0), mcost(a) == 0))
    for i, a in enumerate(ws):
        for b in ws[i + 1:]:
            if max(width(a), width(b)) > 40:
                continue
            st.assume(ult(a, b) == z3.ULT(mcost(a), mcost(b)))
            st.assume(ult(b, a) == z3.ULT(mcost(b), mcost(a)))


class Mem(Sys):
    def __init__(self, ch, op, nargs, ctx=1, sym_mem=True):
        super().__init__(ch, op, nargs, ctx=ctx)
        self.mw = z3.ZeroExt(236, z3.BitVec("mem_words", 20))
        self.st.assume(z3.ULE(self.mw, MAXW))
        self.setctx("MEM_WORDS", self.mw)
        self.free(ctx, "MainMemory")
        self.ctx = ctx
        self.probe = z3.BitVec("probe", 32)

    def m0(self, v):
        return bv(self.init(self.ctx, "MainMemory", v))

    def mem1(self, fin, v):
        return bv(fin.rd(self.ctx, self.k.seg["MainMemory"], v))

    def lo(self, t):
        return z3.simplify(z3.Extract(31, 0, t))

    def oog(self, cost, end):
        """out of gas, `end` is the 257-bit-safe pair (overflow/huge condition, end term)"""
        huge, _ = end
        return z3.Or(huge, ult(self.gas_limit, z3.ZeroExt(192, self.gas_used + cost)))


class Split:
    """The final state in the case `pre`."""

    def __init__(self, fin, pre):
        self.fin, self.pre = fin, pre

    def __getattr__(self, n):
        return getattr(self.fin, n)

    def resolve(self, c):
        if self.fin.path is None:
            return c
        return Final.resolve_with(self.fin, c, self.pre)


def bl(c):
    return z3.BoolVal(bool(c)) if isinstance(c, (bool, int)) else c


def obl(y, fin, results, cost, end, writes=(), active=True, fail=None):
    """end = (huge, end): memory is touched up to end, or that is unaffordable. writes: (addr32, byte) in the order of
    consecutive addresses; every other address keeps its content."""
    huge, e = end
    if isinstance(e, tuple):  # the larger of two ends
        c = fin.resolve(ult(e[0], e[1]))
        if isinstance(c, bool):
            e = e[1] if c else e[0]
        else:
            o = []
            for k, t in ((c, e[1]), (z3.Not(c), e[0])):
                for g in (ult(y.mw, words(t)), z3.Not(ult(y.mw, words(t)))):
                    pre = z3.And(k, g)
                    for nm, cond in obl(y, Split(fin, pre), results, cost, (huge, t), writes, active, fail):
                        o.append((nm, z3.Implies(pre, bl(cond))))
            return o
    extra, neww = cost_expand(y, fin, e) if active else (z3.BitVecVal(0, 64), y.mw)
    oog = y.oog(cost + extra, (huge if active else z3.BoolVal(False), e))
    if fail is not None:
        oog = z3.Or(oog, fail)
    o = y.ok(fin, results, z3.ZeroExt(192, cost + extra), outgas=oog)
    if fin.status == "user":
        o.append(("memory size", bv(fin.rd(y.ctx, y.k.seg["ContextMetadata"], y.fld("CTX_METADATA_MEM_WORDS"))) == neww))
        eqs = [z3.simplify(y.mem1(fin, a) == bv(v)) for a, v in writes]
        eqs = [x for x in eqs if not z3.is_true(x)]
        for i in range(0, len(eqs), 8):
            o.append((f"memory bytes", z3.And(*eqs[i:i + 8])))
        p = y.probe + writes[0][0] if writes else y.probe
        out = z3.UGE(y.probe, len(writes)) if writes else z3.BoolVal(True)
        o.append(("other memory", z3.Implies(out, y.mem1(fin, p) == y.m0(p))))
    return o


def run(tier):
    ops.Mode.memcost = True
    ch = KCheck("C15", tier)
    sizes = list(range(0, 101)) if ch.thorough else [0, 1, 17, 31, 32, 33, 64, 65]
    ch.functions = ["kernel bytecode from the syscall jumptable entries of MLOAD, MSTORE, MSTORE8, MCOPY, CALLDATALOAD, CALLDATACOPY, CODECOPY, RETURNDATACOPY (memory/syscalls.asm, memory/memcpy.asm, memory/memset.asm, memory/packing.asm, memory/metadata.asm)"]
    ch.bound(f"all 256-bit offsets; copied sizes {sizes if not ch.thorough else '0..100'} with every content, all 256-bit sizes above 50000000 (unaffordable); at most {MAXW} words in use before; gas used <= gas limit < 2^32")
    ch.outside = ["copies of other sizes", "returndata/calldata/code segments hold zero beyond their recorded size (they are only written up to it)"]
    ch.assumptions = ["squares are uninterpreted with monotonicity lemmas; models are re-evaluated with real multiplication"]
    jobs = []

    def offsym(y, i, large=False):
        """A 26-bit offset, or one at or above 2^26."""
        if large:
            y.st.assume(z3.UGE(y.args[i], BIG))
            return y.args[i]
        t = z3.ZeroExt(230, z3.BitVec(f"o{i}", 26))
        y.replace_args(y.args[:i] + [t] + y.args[i + 1:])
        return t

    def both(fn):
        def f(ch):
            fn(ch, False)
            fn(ch, True)
        return f

    def mload(ch, large):
        y = Mem(ch, 0x51, 1)
        off = offsym(y, 0, large)
        end = off + 32
        sq_lemmas(y.st, [y.mw, words(end)])
        lo = y.lo(off)
        val = z3.Concat(*[b8(y.m0(z3.simplify(lo + i))) for i in range(32)])
        ch.case(f"MLOAD large={large}", y.st, lambda f: obl(y, f, [val], z3.BitVecVal(3, 64), (z3.UGE(off, BIG), end)), halts=y.halts(), validate=4)

    def mstore(ch, large):
        y = Mem(ch, 0x52, 2)
        off = offsym(y, 0, large)
        v = y.args[1]
        end = off + 32
        sq_lemmas(y.st, [y.mw, words(end)])
        lo = y.lo(off)
        ws = [(z3.simplify(lo + i), z3.ZeroExt(248, z3.Extract(8 * (31 - i) + 7, 8 * (31 - i), v))) for i in range(32)]
        ch.case(f"MSTORE large={large}", y.st, lambda f: obl(y, f, [], z3.BitVecVal(3, 64), (z3.UGE(off, BIG), end), ws), halts=y.halts(), validate=4)

    def mstore8(ch, large):
        y = Mem(ch, 0x53, 2)
        off = offsym(y, 0, large)
        v = y.args[1]
        end = off + 1
        sq_lemmas(y.st, [y.mw, words(end)])
        ch.case(f"MSTORE8 large={large}", y.st, lambda f: obl(y, f, [], z3.BitVecVal(3, 64), (z3.UGE(off, BIG), end), [(y.lo(off), v & 255)]), halts=y.halts(), validate=4)

    def source(y, seg, size):
        """Source bytes: arbitrary below `size`, zero beyond."""
        f = func_base(seg + "_src", 8)
        y.st.seg(y.ctx, y.k.seg[seg]).base = lambda v: z3.If(z3.ULT(z3.ZeroExt(224, z3.BitVecVal(v, 32) if isint(v) else v), size), f(v), B(0))

    def calldataload(ch):
        y = Mem(ch, 0x35, 1)
        size = z3.BitVec("size", 256)
        y.st.assume(z3.ULT(size, 1 << 31))
        y.setctx("CALLDATA_SIZE", size)
        source(y, "Calldata", size)
        i = y.args[0]
        lo = y.lo(i)
        val = z3.Concat(*[z3.If(z3.ULT(i, size), b8(y.init(1, "Calldata", z3.simplify(lo + k))), z3.BitVecVal(0, 8)) for k in range(32)])
        ch.case("CALLDATALOAD", y.st, lambda f: y.ok(f, [val], 3), halts=y.halts(), validate=4)

    def copy(ch, name, op, seg, szfield, n, strict=False, large=False):
        """CALLDATACOPY / CODECOPY / RETURNDATACOPY / MCOPY of n bytes"""
        y = Mem(ch, op, 3)
        y.replace_args(y.args[:2] + [n])
        dest = offsym(y, 0)
        off = offsym(y, 1, large)
        if seg:
            size = z3.ZeroExt(232, z3.BitVec("size", 24))
            y.setctx(szfield, size)
            source(y, seg, size)
        base = z3.BitVecVal(3 + 3 * ((n + 31) // 32), 64)
        end = dest + n
        huge = z3.BoolVal(False)
        fail = None
        dlo, olo = y.lo(dest), y.lo(off)
        if name == "MCOPY":
            huge = z3.UGE(off, BIG)
            end = (dest + n, off + n)
        if strict:
            fail = z3.Or(z3.UGT(off, size), z3.UGT(B(n), size - off))
        ws = [y.mw, words(dest + n)] + ([words(off + n)] if name == "MCOPY" else [])
        sq_lemmas(y.st, ws)
        wr = []
        for i in range(n):
            s = z3.simplify(olo + i)
            src = y.m0(s) if name == "MCOPY" else z3.If(z3.ULT(off, size), bv(y.init(1, seg, s)), B(0))
            wr.append((z3.simplify(dlo + i), src))
        ch.oblig_timeout = 200000
        ch.case(f"{name} size {n} large={large}", y.st, lambda f: obl(y, f, [], base, (huge, end), wr, active=n != 0, fail=fail), halts=y.halts(), validate=2)

    def copy_big(ch, name, op, seg, szfield, strict=False):
        """Sizes and destinations that no gas limit below 2^32 can afford."""
        y = Mem(ch, op, 3)
        dest, off, n = y.args
        y.st.assume(z3.Or(z3.UGT(n, 50000000), z3.And(z3.UGE(dest, BIG), n != 0)))
        if seg:
            size = z3.BitVec("size", 256)
            y.st.assume(z3.ULT(size, 1 << 24))
            y.setctx(szfield, size)
        sq_lemmas(y.st, [y.mw, words(dest + n)])
        ch.case(f"{name} unaffordable", y.st, lambda f: [("faults", f.status == "fault")], halts=y.halts(), validate=2)

    COPIES = [("CALLDATACOPY", 0x37, "Calldata", "CALLDATA_SIZE", False), ("CODECOPY", 0x39, "Code", "CODE_SIZE", False),
              ("RETURNDATACOPY", 0x3e, "Returndata", "RETURNDATA_SIZE", True), ("MCOPY", 0x5e, None, None, False)]
    jobs += [("MLOAD", both(mload)), ("MSTORE", both(mstore)), ("MSTORE8", both(mstore8)), ("CALLDATALOAD", calldataload)]
    for n in reversed(sizes):
        for nm, op, seg, fld, strict in reversed(COPIES):
            if nm == "CODECOPY" and n in (17, 31, 32, 64, 65) and not ch.thorough:
                continue
            for large in (False, True):
                jobs.append((f"{nm} {n}", lambda ch, a=(nm, op, seg, fld, n, strict, large): copy(ch, *a)))
    for nm, op, seg, fld, strict in COPIES:
        jobs.append((nm + " big", lambda ch, a=(nm, op, seg, fld, strict): copy_big(ch, *a)))
    ch.parallel(jobs)
    return ch.finish()
