"""C25: SSTORE and SLOAD: gas, refunds, stored value."""
from fw import *
from klist import *
from ksym import keccak_bytes, byte_of


def kec(x, n):
    """keccak of the n-byte big-endian value x"""
    return bv(keccak_bytes([byte_of(x, n - 1 - i) for i in range(n)]))


def run(tier):
    ch = KCheck("C25", tier)
    k = ch.k
    gm = lambda n: k.const["GLOBAL_METADATA_" + n] & MASK32
    cm = lambda n: k.const["CTX_METADATA_" + n] & MASK32
    GM = k.seg["GlobalMetadata"]
    J, JD = k.seg["Journal"], k.seg["JournalData"]
    q = z3.BitVec("probe", 32)
    ch.functions = ["kernel bytecode of sys_sstore and sys_sload with insert_accessed_storage_keys, search_slot, insert_slot_with_value, remove_slot, the refund and the storage journal (mpt/storage/, core/access_lists.asm, mpt/linked_list/linked_list.asm, core/gas.asm, journal/)"]
    ch.bound("every original, current and new value (256 bits), slot, address, gas counter and limit (32 bits), refund counter, static flag; the slot cold or warm, zero or not; up to one other slot in each list, on either side")
    ch.outside = ["adversarial list hints: C18, C19 (here the hints are those of an honest prover)", "longer lists"]
    ch.assumptions = ["keccak256 does not collide on the keys at hand"]

    def setup(op, cold, present, other):
        """other: position of another slot in the lists: None, -1 (before) or 1 (after)"""
        y = Sys(ch, op, 2 if op == 0x55 else 1)
        st = y.st
        addr = z3.ZeroExt(96, z3.BitVec("address", 160))
        y.setctx("ADDRESS", addr)
        static = z3.ZeroExt(255, z3.BitVec("static", 1))
        y.setctx("STATIC", static)
        slot = y.args[0]
        cur = z3.BitVec("current", 256) if present else bv(0)
        if present:
            st.assume(cur != 0)
        orig = cur if cold else z3.BitVec("original", 256)
        # storage list: the slot (if it is not zero) and maybe another one
        key = [kec(addr, 20), kec(slot, 32)]
        n_live = (1 if present else 0) + (1 if other else 0)
        me = 1 if present else None
        oth = (2 if present else 1) if other else None
        order = [x for x in ([oth, me] if other == -1 else [me, oth]) if x]
        L = KList(k, st, "StorageLinkedList", 5, 2, 4, order, [], name="sl")
        sub = []
        if present:
            sub += [(L.keys[1][0], key[0]), (L.keys[1][1], key[1])]
            L.mem[1 * 5 + 2] = cur
            L.keys[1] = key
            L.mem[5], L.mem[6] = key
        if other:
            ok = [z3.BitVec("other_addr_key", 256), z3.BitVec("other_slot_key", 256)]
            L.keys[oth] = ok
            L.mem[oth * 5], L.mem[oth * 5 + 1] = ok
            st.assume(ok[0] != U256)
        st.conds = [z3.substitute(c, *sub) if sub else c for c in st.conds]
        if other:
            # the generic names of the other node
            st.conds = [c for c in st.conds if "sl" not in str(c)[:400]]
            st.assume(lexlt(L.keys[oth], key) if other == -1 else lexlt(key, L.keys[oth]))
        for a, v in L.mem.items():
            st.seg(0, L.seg).write(a, v)
        st.assume(key[0] != U256)
        # access list
        A = KList(k, st, "AccessedStorageKeys", 4, 2, 3, ([1] if not cold else []), [], [160, 256], name="al")
        if not cold:
            A.keys[1] = [addr, slot]
            A.mem[4], A.mem[5], A.mem[6] = addr, slot, orig
            for a, v in A.mem.items():
                st.seg(0, A.seg).write(a, v)
        y.setglobal("ACCESSED_STORAGE_KEYS_LEN", A.end)
        y.setglobal("STORAGE_LINKED_LIST_NEXT_AVAILABLE", L.end)
        refund = z3.BitVec("refund", 256)
        y.setglobal("REFUND_COUNTER", refund)
        y.setglobal("JOURNAL_LEN", 3)
        y.setglobal("JOURNAL_DATA_LEN", 20)

        def hook(E, s, fn):
            f = str(fn)
            if "storage_insert" in f:
                return A.hint(0 if cold else 1)
            if "remove_slot" in f:
                return L.hint(oth if other == -1 else 0)
            if "insert_slot" in f or "search_slot" in f:
                return L.hint(1 if present else (oth if other == -1 else 0))
            raise KeyError(f)
        return y, L, A, addr, slot, cur, orig, refund, static, hook, (oth if other == -1 else 0)

    def warmed(f, A, addr, slot, cur, cold):
        rd = lambda s, v: bv(f.rd(0, s, v))
        if not cold:
            return A.content(lambda a: f.rd(0, A.seg, a), [], q) + [("access list length", rd(GM, gm("ACCESSED_STORAGE_KEYS_LEN")) == A.end)]
        T = z3.BoolVal(True)
        chg = A.inserted([addr, slot], {2: cur})
        return A.content(lambda a: f.rd(0, A.seg, a), chg, q) + [("access list length", rd(GM, gm("ACCESSED_STORAGE_KEYS_LEN")) == A.end + 4),
                ("access journaled", z3.And(rd(J, 3) == 20, rd(JD, 20) == k.const["JOURNAL_ENTRY_STORAGE_LOADED"], rd(JD, 21) == addr, rd(JD, 22) == slot))]

    def sload(ch, cold, present, other):
        y, L, A, addr, slot, cur, orig, refund, static, hook, pr = setup(0x54, cold, present, other)

        def ob(f):
            o = y.ok(f, [cur], 2100 if cold else 100)
            if f.status != "user":
                return o
            rd = lambda s, v: bv(f.rd(0, s, v))
            o += warmed(f, A, addr, slot, cur, cold)
            o += L.content(lambda a: f.rd(0, L.seg, a), [], q)
            o += [("refunds", rd(GM, gm("REFUND_COUNTER")) == refund), ("journal", rd(GM, gm("JOURNAL_LEN")) == 3 + int(cold))]
            return o
        ch.case(f"SLOAD {'cold' if cold else 'warm'} {'nonzero' if present else 'zero'} other {other}", y.st, ob, halts=y.halts(), validate=1, prover_hook=hook)

    def sstore(ch, cold, present, other):
        y, L, A, addr, slot, cur, orig, refund, static, hook, pr = setup(0x55, cold, present, other)
        new = y.args[1]
        left = y.gas_limit - z3.ZeroExt(192, y.gas_used)
        I = z3.If
        z = lambda x: bv(x) == 0
        same_, clean = new == cur, cur == orig
        gas = I(same_, bv(100), I(clean, I(z(orig), bv(20000), bv(2900)), bv(100))) + (2100 if cold else 0)
        # EIP-3529
        d = bv(0)
        d = d + I(z3.And(z3.Not(same_), clean, z3.Not(z(orig)), z(new)), bv(4800), bv(0))
        dirty = z3.And(z3.Not(same_), z3.Not(clean))
        d = d + I(z3.And(dirty, z3.Not(z(orig)), z(cur)), bv(-4800), bv(0))
        d = d + I(z3.And(dirty, z3.Not(z(orig)), z3.Not(z(cur)), z(new)), bv(4800), bv(0))
        d = d + I(z3.And(dirty, new == orig), I(z(orig), bv(19900), bv(2800)), bv(0))
        early = z3.Or(static != 0, z3.ULE(left, 2300))
        used = z3.ZeroExt(192, y.gas_used)
        fail = z3.Or(early, z3.UGT(used + gas, y.gas_limit))

        def ob(f):
            if f.status == "fault":
                return [("fails only in a static frame, at the stipend or out of gas", fail)]
            o = y.ok(f, [], gas, outgas=fail)
            if f.status != "user":
                return o
            rd = lambda s, v: bv(f.rd(0, s, v))
            o += warmed(f, A, addr, slot, cur, cold)
            ch_ = []
            T = z3.Not(same_)
            if present:
                nx = L.next[1]
                ch_ = [(new != 0, 5 + 2, new), (new == 0, pr * 5 + 4, L.ptr(nx)), (new == 0, 5 + 4, U256)]
            else:
                nw = L.len
                ins = new != 0
                ch_ = [(ins, pr * 5 + 4, L.base + nw), (ins, nw + 4, L.ptr(L.next[pr])), (ins, nw, bv(kec(addr, 20))), (ins, nw + 1, bv(kec(slot, 32))), (ins, nw + 2, new), (ins, nw + 3, new)]
            o += L.content(lambda a: f.rd(0, L.seg, a), ch_, q)
            o.append(("list length", rd(GM, gm("STORAGE_LINKED_LIST_NEXT_AVAILABLE")) == (bv(L.end) if present else I(new != 0, bv(L.end + 5), bv(L.end)))))
            o.append(("refund counter", rd(GM, gm("REFUND_COUNTER")) == refund + d))
            # the last journal entry is the change of the slot
            jl = rd(GM, gm("JOURNAL_LEN"))
            jl_s = simp(jl)
            n = max(jl_s, 1) if isint(jl_s) else None
            ps = simp(rd(J, n - 1)) if n else None
            o.append(("journal is concrete", isint(ps)))
            if isint(ps):
                entry = z3.And(rd(JD, ps) == k.const["JOURNAL_ENTRY_STORAGE_CHANGE"], rd(JD, ps + 1) == addr, rd(JD, ps + 2) == slot, rd(JD, ps + 3) == cur) if n > 3 + int(cold) else z3.BoolVal(False)
                o.append(("the change is the last journal entry", z3.Implies(T, entry)))
            return o
        ch.case(f"SSTORE {'cold' if cold else 'warm'} {'nonzero' if present else 'zero'} other {other}", y.st, ob, halts=y.halts(), validate=2, prover_hook=hook, max_paths=5000)

    jobs = []
    for cold in (True, False):
        for present in (True, False):
            for other in (None, -1, 1):
                jobs.append((f"sload {cold} {present} {other}", lambda ch, a=(cold, present, other): sload(ch, *a)))
                jobs.append((f"sstore {cold} {present} {other}", lambda ch, a=(cold, present, other): sstore(ch, *a)))
    ch.parallel(jobs)
    return ch.finish()
