"""C43: TLOAD and TSTORE act on exactly the slot of the current account."""
from fw import *
from klist import same


def run(tier):
    ch = KCheck("C43", tier)
    k = ch.k
    gm = lambda n: k.const["GLOBAL_METADATA_" + n] & MASK32
    GM, T, J, JD = k.seg["GlobalMetadata"], k.seg["TransientStorage"], k.seg["Journal"], k.seg["JournalData"]
    top = 3 if ch.thorough else 2
    ch.functions = ["kernel bytecode of sys_tload, sys_tstore, search_transient_storage and the transient journal entry (memory/transient_storage.asm, journal/)"]
    ch.bound(f"up to {top} transient entries of any accounts (160 bits), slots and values (256 bits), every slot, value, gas counter and limit (32 bits) and static flag")
    ch.outside = ["longer transient storage"]

    def setup(op, n):
        y = Sys(ch, op, 1 if op == 0x5c else 2)
        st = y.st
        addr = z3.ZeroExt(96, z3.BitVec("address", 160))
        y.setctx("ADDRESS", addr)
        static = z3.ZeroExt(255, z3.BitVec("static", 1))
        y.setctx("STATIC", static)
        es = [(z3.ZeroExt(96, z3.BitVec(f"ta{i}", 160)), z3.BitVec(f"ts{i}", 256), z3.BitVec(f"tv{i}", 256)) for i in range(n)]
        for i, e in enumerate(es):
            for j, x in enumerate(e):
                st.seg(0, T).write(3 * i + j, x)
            for e2 in es[:i]:
                st.assume(z3.Not(same(e[:2], e2[:2])))
        y.setglobal("TRANSIENT_STORAGE_LEN", (T << 32) + 3 * n)
        y.setglobal("JOURNAL_LEN", 3)
        y.setglobal("JOURNAL_DATA_LEN", 20)
        key = (addr, y.args[0])
        cur = bv(0)
        for e in es:
            cur = z3.If(same(e[:2], key), e[2], cur)
        return y, es, key, cur, static

    def content(f, es, key, new):
        """entries after writing new (None: unchanged); an absent slot is appended"""
        rd = lambda s, v: bv(f.rd(0, s, v))
        n = len(es)
        hit = z3.Or(*[same(e[:2], key) for e in es]) if es else z3.BoolVal(False)
        o = []
        for i, e in enumerate(es):
            v = e[2] if new is None else z3.If(same(e[:2], key), new, e[2])
            o.append((f"entry {i}", z3.And(rd(T, 3 * i) == e[0], rd(T, 3 * i + 1) == e[1], rd(T, 3 * i + 2) == v)))
        ln = rd(GM, gm("TRANSIENT_STORAGE_LEN"))
        if new is None:
            o.append(("length", ln == (T << 32) + 3 * n))
        else:
            o.append(("length", ln == z3.If(hit, bv((T << 32) + 3 * n), bv((T << 32) + 3 * n + 3))))
            o.append(("new entry", z3.Implies(z3.Not(hit), z3.And(rd(T, 3 * n) == key[0], rd(T, 3 * n + 1) == key[1], rd(T, 3 * n + 2) == new))))
        return o

    def tload(ch, n):
        y, es, key, cur, static = setup(0x5c, n)

        def ob(f):
            o = y.ok(f, [cur], 100)
            if f.status == "user":
                o += content(f, es, key, None) + [("journal", bv(f.rd(0, GM, gm("JOURNAL_LEN"))) == 3)]
            return o
        ch.case(f"TLOAD {n} entries", y.st, ob, halts=y.halts(), validate=2)

    def tstore(ch, n):
        y, es, key, cur, static = setup(0x5d, n)
        new = y.args[1]
        fail = z3.Or(static != 0, z3.UGT(z3.ZeroExt(192, y.gas_used) + 100, y.gas_limit))

        def ob(f):
            if f.status == "fault":
                return [("fails only in a static frame or out of gas", fail)]
            o = y.ok(f, [], 100, outgas=fail)
            if f.status != "user":
                return o
            rd = lambda s, v: bv(f.rd(0, s, v))
            o += content(f, es, key, new)
            ch_ = new != cur
            o.append(("journal length", rd(GM, gm("JOURNAL_LEN")) == z3.If(ch_, bv(4), bv(3))))
            o.append(("journal entry", z3.Implies(ch_, z3.And(rd(J, 3) == 20, rd(JD, 20) == k.const["JOURNAL_ENTRY_TRANSIENT_STORAGE_CHANGE"], rd(JD, 21) == key[0],
                                                               rd(JD, 22) == key[1], rd(JD, 23) == cur, rd(GM, gm("JOURNAL_DATA_LEN")) == 24))))
            return o
        ch.case(f"TSTORE {n} entries", y.st, ob, halts=y.halts(), validate=2)

    jobs = []
    for n in range(top + 1):
        jobs += [(f"tload {n}", lambda ch, n=n: tload(ch, n)), (f"tstore {n}", lambda ch, n=n: tstore(ch, n))]
    ch.parallel(jobs)
    return ch.finish()
