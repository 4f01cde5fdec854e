"""C17: exception handlers accept an exception only if its cause holds, and a failed frame loses its gas."""
from fw import *
from c20 import valid_jump, code_bytes, set_code, near_hint, NEAR

CTX = 2
B8 = lambda v: z3.BitVecVal(v, 8)

# The Cancun EVM, written down independently: opcode -> (stack items needed, gas charged by the instruction itself or None if a
# handler charges it, pushes more than it pops)
VALID = {}


def _def(lo, hi, need, gas, grows=False):
    for o in range(lo, hi + 1):
        VALID[o] = (need, gas, grows)


for o, need, gas in [(0x00, 0, None), (0x01, 2, 3), (0x02, 2, 5), (0x03, 2, 3), (0x04, 2, 5), (0x05, 2, None), (0x06, 2, 5), (0x07, 2, None),
                     (0x08, 3, 8), (0x09, 3, 8), (0x0a, 2, None), (0x0b, 2, None), (0x10, 2, 3), (0x11, 2, 3), (0x12, 2, None), (0x13, 2, None),
                     (0x14, 2, 3), (0x15, 1, 3), (0x16, 2, 3), (0x17, 2, 3), (0x18, 2, 3), (0x19, 1, 3), (0x1a, 2, 3), (0x1b, 2, 3), (0x1c, 2, 3), (0x1d, 2, None),
                     (0x20, 2, None), (0x31, 1, None), (0x35, 1, None), (0x37, 3, None), (0x39, 3, None), (0x3b, 1, None), (0x3c, 4, None),
                     (0x3e, 3, None), (0x3f, 1, None), (0x40, 1, None), (0x49, 1, None), (0x50, 1, 2), (0x51, 1, None), (0x52, 2, None), (0x53, 2, None),
                     (0x54, 1, None), (0x55, 2, None), (0x56, 1, 8), (0x57, 2, 10), (0x5b, 0, 1), (0x5c, 1, None), (0x5d, 2, None), (0x5e, 3, None),
                     (0xf0, 3, None), (0xf1, 7, None), (0xf2, 7, None), (0xf3, 2, None), (0xf4, 6, None), (0xf5, 4, None), (0xfa, 6, None), (0xfd, 2, None), (0xff, 1, None)]:
    VALID[o] = (need, gas, False)
for o in (0x30, 0x32, 0x33, 0x34, 0x36, 0x38, 0x3a, 0x3d, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x4a, 0x59, 0x5a):
    VALID[o] = (0, None, True)
VALID[0x58] = (0, 2, True)
VALID[0x5f] = (0, 2, True)
_def(0x60, 0x7f, 0, 3, True)
for i in range(16):
    VALID[0x80 + i] = (i + 1, 3, True)
    VALID[0x90 + i] = (i + 2, 3, False)
for i in range(5):
    VALID[0xa0 + i] = (i + 2, None, False)


# least gas of the instructions that a handler charges for (raising out-of-gas early for them changes nothing)
LEAST = {0x05: 5, 0x07: 5, 0x0a: 10, 0x0b: 5, 0x12: 3, 0x13: 3, 0x1d: 3, 0x20: 30, 0x31: 100, 0x35: 3, 0x37: 3, 0x39: 3, 0x3b: 100, 0x3c: 100, 0x3e: 3, 0x3f: 100,
         0x40: 20, 0x47: 5, 0x49: 3, 0x51: 3, 0x52: 3, 0x53: 3, 0x54: 100, 0x55: 100, 0x5c: 100, 0x5d: 100, 0x5e: 3, 0xf0: 32000, 0xf1: 100, 0xf2: 100, 0xf4: 100,
         0xf5: 32000, 0xfa: 100, 0xff: 5000, **{0xa0 + i: 375 * (i + 1) for i in range(5)}, **{o: 2 for o in VALID if VALID[o][1] is None and VALID[o][2] and o != 0x47}}


def among(op, pred):
    """pred as a condition on the symbolic opcode byte"""
    ok = [o for o in range(256) if pred(o)]
    runs = []
    for o in ok:
        if runs and runs[-1][1] == o - 1:
            runs[-1][1] = o
        else:
            runs.append([o, o])
    return z3.Or(*[z3.And(z3.UGE(op, lo), z3.ULE(op, hi)) for lo, hi in runs]) if runs else z3.BoolVal(False)


def table(op, f, w):
    r = z3.BitVecVal(0, w)
    for v in sorted({f(o) for o in range(256)} - {0}):
        r = z3.If(among(op, lambda o: f(o) == v), z3.BitVecVal(v, w), r)
    return r


class Exc:
    def __init__(self, ch, code, stack, pc=None, op=None, ctx=CTX):
        k = ch.k
        self.k = k
        self.st = st = State()
        st.pc = k.exc(code)
        st.ctx = ctx
        self.pc = z3.BitVec("pc", 32) if pc is None else z3.BitVecVal(pc, 32)
        self.gas = z3.BitVec("gas_used", 64)
        self.limit = z3.BitVec("gas_limit", 256)
        self.op = z3.BitVec("opcode", 8)
        if op is not None:
            self.op = z3.BitVecVal(op, 8)
        info = z3.Concat(self.gas, z3.Concat(z3.BitVecVal(0, 160), self.pc))
        st.stack = list(stack) + [info]
        if pc is None:
            # code: the instruction byte at the symbolic pc, anything elsewhere
            f = func_base("code", 8)
            st.seg(ctx, 0).base = lambda v: z3.If((z3.BitVecVal(v, 32) if isint(v) else v) == self.pc, z3.ZeroExt(248, self.op), bv(f(v)))
        else:
            st.seg(ctx, 0).write(pc, z3.ZeroExt(248, self.op))
        st.seg(ctx, k.seg["ContextMetadata"]).write(k.const["CTX_METADATA_GAS_LIMIT"] & MASK32, self.limit)

    def halts(self):
        return {self.k.label("fault_exception"): "fault"}


def run(tier):
    ch = KCheck("C17", tier)
    ch.functions = ["kernel bytecode of the exception jumptable entries 0..7, verify_non_jumpdest, fault_exception, revert_checkpoint and terminate_common (core/exception.asm, core/jumpdest_analysis.asm, core/terminate.asm, journal/revert.asm, and the opcode bit fields and gas constants it is assembled with)"]
    ch.bound("every opcode byte, pc, gas counter (64 bits), gas limit (256 bits); stack lengths 0..18 and 1000..1024; jump targets: every 256-bit value, codes with a window of 5 free bytes at 0 and at 24600 and zero elsewhere, prover hints from 40 bytes before to 4 behind the start of the far window (five of them quick), arbitrary for the window at 0")
    ch.outside = ["validity of jump targets in other codes: C20", "state changes reverted by kinds of journal entries: C21 (here refunds and logs)"]
    jobs = []

    def oog(ch):
        y = Exc(ch, 0, [7])
        cost = table(y.op, lambda o: (VALID.get(o, (0, 0))[1] or 0), 256)
        g = z3.ZeroExt(192, y.gas)
        real = z3.And(z3.ULE(g, y.limit), z3.UGT(g + cost, y.limit))
        most = table(y.op, lambda o: VALID[o][1] or LEAST.get(o, 0) if o in VALID else 0, 256)
        true = z3.And(z3.ULE(g, y.limit), z3.Or(z3.UGT(g + most, y.limit), z3.Not(among(y.op, lambda o: o in VALID))))
        ch.case("out of gas", y.st, lambda f: [("accepted only if the instruction exceeds the limit", true)] if f.status == "fault" else
                [("rejected only if it does not", z3.Not(real)), ("rejected", f.status == "stuck")], halts=y.halts(), validate=4)
    jobs.append(("out of gas", oog))

    def invalid(ch):
        y = Exc(ch, 1, [7])
        real = among(y.op, lambda o: o not in VALID)
        ch.case("invalid opcode", y.st, lambda f: [("accepted only if the opcode is invalid", real)] if f.status == "fault" else
                [("rejected only if it is valid", z3.Not(real)), ("rejected", f.status == "stuck")], halts=y.halts(), validate=4,
                key=lambda env: f"invalid opcode {env.get('opcode', 0):#x}")
    jobs.append(("invalid opcode", invalid))

    def underflow(ch, n):
        y = Exc(ch, 2, [z3.BitVec(f"u{i}", 256) for i in range(n)])
        valid = among(y.op, lambda o: o in VALID)
        real = among(y.op, lambda o: o in VALID and n < VALID[o][0])
        ch.case(f"stack underflow, {n} items", y.st, lambda f: [("accepted only if the stack is too short", z3.Or(real, z3.Not(valid)))] if f.status == "fault" else
                [("rejected only if it is not", z3.Not(real)), ("rejected", f.status == "stuck")], halts=y.halts(), validate=1)
    for n in range(0, 19):
        jobs.append((f"underflow {n}", lambda ch, n=n: underflow(ch, n)))

    def overflow(ch, n):
        y = Exc(ch, 5, [z3.BitVec(f"u{i}", 256) if i > n - 3 else 5 for i in range(n)])
        real = among(y.op, lambda o: o in VALID and VALID[o][2] and n == 1024)
        ch.case(f"stack overflow, {n} items", y.st, lambda f: [("accepted only if the stack is full and the instruction grows it", real)] if f.status == "fault" else
                [("rejected only if it is not", z3.Not(real)), ("rejected", f.status == "stuck")], halts=y.halts(), validate=1)
    for n in ([0, 1, 2, 16, 1000, 1022, 1023, 1024] if ch.thorough else [1, 1023, 1024]):
        jobs.append((f"overflow {n}", lambda ch, n=n: overflow(ch, n)))

    def jump(ch, code, base, n, size, hint=None, near=False):
        pc = 0xb000
        d = z3.BitVec("target", 256)
        cond = z3.BitVec("cond", 256)
        y = Exc(ch, code, [5, cond, d] if code == 4 else [5, d], pc=pc)
        bs = code_bytes("c", n)
        set_code(y.st, CTX, bs, base)
        y.st.seg(CTX, ch.k.seg["ContextMetadata"]).write(ch.k.const["CTX_METADATA_CODE_SIZE"] & MASK32, size)

        p = (z3.ZeroExt(236, z3.BitVec("hint", 20)) if hint is None else z3.BitVec("hint", 256)) if not base else z3.BitVecVal(base + hint, 256)
        if hint == "huge":
            y.st.assume(z3.UGE(p, 1 << 20))
        bad = near_hint(p, d)
        y.st.assume(bad if near else z3.Not(bad))
        hook = lambda E, s, fn: norm(p)
        if base:
            y.st.assume(z3.Or(z3.And(z3.UGE(d, base - 2), z3.ULE(d, base + n + 2)), z3.UGT(d, 0xc000)))
        real = z3.And(z3.Not(valid_jump(bs, d, base)), y.op == (0x57 if code == 4 else 0x56))
        if code == 4:
            real = z3.And(real, cond != 0)

        def ob(f):
            if f.status == "fault":
                return [("accepted only if the target is invalid", real)]
            return [("rejected", f.status == "stuck")]
        ch.case(f"{'JUMPI' if code == 4 else 'JUMP'} to an invalid target, window at {base}{'' if hint is None else f', hint {hint}'}{', hint just below' if near else ''}", y.st, ob, key=(lambda env: NEAR) if near else None, halts=y.halts(), validate=2, prover_hook=hook, max_paths=20000)
    for code in (3, 4):
        n = 6 if ch.thorough else 5
        jobs.append((f"jump {code} 0", lambda ch, code=code, n=n: jump(ch, code, 0, n, 0xc000)))
        jobs.append((f"jump {code} 0 huge", lambda ch, code=code, n=n: jump(ch, code, 0, n, 0xc000, "huge")))
        jobs.append((f"jump {code} near", lambda ch, code=code, n=n: jump(ch, code, 0, 3, 0xc000, None, True)))
        for h in (range(-40, 5) if ch.thorough else (-33, -32, -31, -30, 0)):
            jobs.append((f"jump {code} far {h}", lambda ch, code=code, h=h: jump(ch, code, 24600, 3, 0xc000, h)))

    def unused(ch):
        y = Exc(ch, 7, [1, 2, 3])
        ch.case("unused exception", y.st, lambda f: [("rejected", f.status == "stuck")], halts=y.halts(), validate=1)
    jobs.append(("unused", unused))

    def segend(ch, n):
        """Exception 6 ends a segment: only if the announced registers are the real ones."""
        us = [z3.BitVec(f"u{i}", 256) for i in range(n)]
        y = Exc(ch, 6, us)
        # both modes can end a segment
        km = z3.BitVec("kernel_mode", 1)
        y.st.stack[-1] = z3.Concat(y.gas, z3.Concat(z3.BitVecVal(0, 159), z3.Concat(km, y.pc)))
        y.st.assume(z3.ULT(y.gas, 1 << 32))
        a = ch.k.const["FINAL_REGISTERS_ADDR"]
        seg, off = (a >> 32) & MASK32, a & MASK32
        reg = [z3.BitVec(f"reg{i}", 256) for i in range(6)]
        for i, r in enumerate(reg):
            y.st.seg(0, seg).write(off + i, r)
            if i != 3:
                y.st.assume(z3.ULT(r, 1 << 32))
        real = [reg[0] == z3.ZeroExt(224, y.pc), reg[1] == z3.ZeroExt(255, km), reg[2] == n, reg[4] == CTX, reg[5] == z3.ZeroExt(192, y.gas)]
        if n:
            real.append(reg[3] == us[-1])
        real = z3.And(*real)
        ch.case(f"segment end, {n} items", y.st, lambda f: [("registers are those announced", real)] if f.status == "end" else
                [("rejected only if they differ", z3.Not(real)), ("rejected", f.status == "stuck")], halts={ch.k.label("halt_final"): "end", **y.halts()}, validate=2)
    for n in (0, 1, 2, 7):
        jobs.append((f"segment end {n}", lambda ch, n=n: segend(ch, n)))

    def consume(ch, nref, parent):
        """fault_exception: state reverted, all gas lost, control back to the parent with 0."""
        k = ch.k
        cm = lambda n: k.const["CTX_METADATA_" + n] & MASK32
        gm = lambda n: k.const["GLOBAL_METADATA_" + n] & MASK32
        CM, GM = k.seg["ContextMetadata"], k.seg["GlobalMetadata"]
        st = State()
        st.pc = k.label("fault_exception")
        st.ctx = CTX
        junk = [z3.BitVec(f"u{i}", 256) for i in range(3)]
        st.stack = list(junk)
        ps = [z3.BitVec(f"p{i}", 256) for i in range(parent)]
        w = lambda f, v, c=CTX: st.seg(c, CM).write(cm(f), v)
        g = lambda f, v: st.seg(0, GM).write(gm(f), v)
        back = k.label("halt_final")
        w("PARENT_CONTEXT", 1 << 64)
        w("PARENT_PC", back)
        w("GAS_LIMIT", z3.BitVec("gas_limit", 256))
        w("CHECKPOINTS_LEN", 1)
        w("STACK_SIZE", parent, 1)
        w("RETURNDATA_SIZE", z3.BitVec("old_rds", 256), 1)
        for i, p in enumerate(ps):
            st.seg(1, k.seg["Stack"]).write(i, p)
        depth = z3.BitVec("depth", 256)
        g("CALL_STACK_DEPTH", depth)
        # one checkpoint at entry of the frame; before it one refund, in it `nref` refunds and a log
        st.seg(CTX, k.seg["ContextCheckpoints"]).write(0, 3)
        g("CURRENT_CHECKPOINT", 4)
        J, JD, JC = k.seg["Journal"], k.seg["JournalData"], k.seg["JournalCheckpoints"]
        r = [z3.BitVec(f"r{i}", 256) for i in range(nref + 1)]
        total = z3.BitVec("refunds", 256)
        data, ptrs = [], []
        REF, LOG = k.const["JOURNAL_ENTRY_REFUND"], k.const["JOURNAL_ENTRY_LOG"]
        for x in r:
            ptrs.append(len(data))
            data += [REF, x]
        l0, p0 = z3.BitVec("old_log_data", 256), z3.BitVec("old_payload", 256)
        ptrs.append(len(data))
        data += [LOG, l0, p0]
        for i, x in enumerate(ptrs):
            st.seg(0, J).write(i, x)
        for i, x in enumerate(data):
            st.seg(0, JD).write(i, x)
        st.seg(0, JC).write(3, 1)
        g("JOURNAL_LEN", len(ptrs))
        g("JOURNAL_DATA_LEN", len(data))
        before = z3.BitVec("refund_at_checkpoint", 256)
        now = before
        for x in r[1:]:
            now = now + x
        g("REFUND_COUNTER", now)
        nl = z3.BitVec("logs", 256)
        g("LOGS_LEN", nl + 1)
        g("LOGS_DATA_LEN", z3.BitVec("ld", 256))
        g("LOGS_PAYLOAD_LEN", z3.BitVec("lp", 256))

        def ob(f):
            if f.status != "back":
                return [("returns to the parent", False)]
            rdg = lambda n: bv(f.rd(0, GM, gm(n)))
            ob = [("parent's stack", len(f.stack) == parent + 2)]
            if len(f.stack) == parent + 2:
                ob += [(f"parent's stack[{i}]", bv(a) == b) for i, (a, b) in enumerate(zip(f.stack, ps))]
                ob += [("no gas left over", bv(f.stack[parent]) == 0), ("failure reported", bv(f.stack[parent + 1]) == 0)]
            ob += [("in the parent's context", f.ctx == 1), ("no return data", bv(f.rd(1, CM, cm("RETURNDATA_SIZE"))) == 0),
                   ("call depth", rdg("CALL_STACK_DEPTH") == depth - 1), ("refunds reverted", rdg("REFUND_COUNTER") == before), ("journal cut", rdg("JOURNAL_LEN") == 1),
                   ("logs reverted", rdg("LOGS_LEN") == nl), ("current checkpoint", rdg("CURRENT_CHECKPOINT") == 3),
                   ("log data reverted", z3.Or(z3.And(rdg("LOGS_DATA_LEN") == l0, rdg("LOGS_PAYLOAD_LEN") == p0), z3.And(rdg("LOGS_DATA_LEN") == p0, rdg("LOGS_PAYLOAD_LEN") == l0)))]
            return ob
        ch.case(f"failing frame, {nref} refunds, {parent} items", st, ob, halts={back: "back"}, validate=1)
    for nref, parent in [(0, 0), (2, 3)] + ([(4, 1), (1, 16)] if ch.thorough else []):
        jobs.append((f"failing frame {nref} {parent}", lambda ch, a=(nref, parent): consume(ch, *a)))
    jobs.sort(key=lambda j: not j[0].startswith(("jump", "overflow 102")))
    ch.parallel(jobs)
    return ch.finish()
