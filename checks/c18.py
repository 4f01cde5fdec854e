"""C18: warm/cold access lists."""
from fw import *
from klist import *

MAXV = 1 << 16


def run(tier):
    ch = KCheck("C18", tier)
    k = ch.k
    gm = lambda n: k.const["GLOBAL_METADATA_" + n] & MASK32
    GM = k.seg["GlobalMetadata"]
    ret = k.label("halt_final")
    ch.functions = ["kernel bytecode of init_access_lists, insert_accessed_addresses, remove_accessed_addresses, insert_accessed_storage_keys, remove_accessed_storage_keys (core/access_lists.asm), journal_add_account_loaded and journal_add_storage_loaded (journal/)"]
    ch.bound(f"lists of up to {3 if ch.thorough else 2} live entries and one deleted one in every physical order, every key (160-bit addresses, 256-bit slots), every 256-bit hint")
    ch.outside = ["longer lists: an operation touches the hinted node, its successor and the new node only"]
    q = z3.BitVec("probe", 32)
    KINDS = {"address": ("AccessedAddresses", 2, 1, 1, [160], "ACCESSED_ADDRESSES_LEN", 1, "JOURNAL_ENTRY_ACCOUNT_LOADED"),
             "slot": ("AccessedStorageKeys", 4, 2, 3, [160, 256], "ACCESSED_STORAGE_KEYS_LEN", 2, "JOURNAL_ENTRY_STORAGE_LOADED")}

    def setup(kind, order, dead, label):
        segname, stride, nk, nxt, bits, lenf, _, jt = KINDS[kind]
        st = State()
        st.pc = k.label(label)
        st.ctx = 0
        L = KList(k, st, segname, stride, nk, nxt, order, dead, bits)
        key = [z3.ZeroExt(96, z3.BitVec("addr", 160))] + ([z3.BitVec("slot", 256)] if nk > 1 else [])
        st.stack = [0x1234, ret] + list(reversed(key))
        st.seg(0, GM).write(gm(lenf), L.end)
        jl, jd = 5, 40
        st.seg(0, GM).write(gm("JOURNAL_LEN"), jl)
        st.seg(0, GM).write(gm("JOURNAL_DATA_LEN"), jd)
        return st, L, key, lenf, jl, jd, jt

    def frame(f, L, q, changes, extra=()):
        return L.content(lambda a: f.rd(0, L.seg, a), changes, q, skip=[L.len + 2] if L.stride == 4 else [])

    def journal(f, st, key, jl, jd, jt, ins):
        J, JD = k.seg["Journal"], k.seg["JournalData"]
        rd = lambda s, v: bv(f.rd(0, s, v))
        one = z3.If(ins, bv(1), bv(0))
        ob = [("journal length", rd(GM, gm("JOURNAL_LEN")) == jl + one), ("journal data length", rd(GM, gm("JOURNAL_DATA_LEN")) == jd + one * (1 + len(key))),
              ("journal entry", z3.Implies(ins, z3.And(rd(J, jl) == jd, rd(JD, jd) == k.const[jt], *[rd(JD, jd + 1 + i) == x for i, x in enumerate(key)])))]
        return ob

    def insert(ch, kind, order, dead, low=None):
        st, L, key, lenf, jl, jd, jt = setup(kind, order, dead, {"address": "insert_accessed_addresses", "slot": "insert_accessed_storage_keys"}[kind])
        stride = L.stride
        if low is not None:
            # a hint that points into another segment (with whatever it holds)
            x = z3.Concat(z3.BitVecVal(0, 192), z3.BitVecVal(low, 32), z3.Concat(z3.BitVecVal(0, 16), z3.BitVec("hint_virt", 16)))
            st.assume(z3.URem(x, stride) == 0)
            hint = z3.LShR(x, 1 if stride == 2 else 2)
            if low != k.seg["GlobalMetadata"] and low:
                st.seg(0, low).base = func_base(f"seg{low}", 256)
        else:
            hint = z3.BitVec("hint", 256)
        mem = L.member(key)
        hon = L.honest(key)

        def ob(f):
            if f.status == "stuck":
                return [("an honest hint is accepted", hint != hon)]
            if f.status != "ret":
                return [("returns", False)]
            res = z3.If(mem, bv(0), bv(1))
            n = 2 if kind == "address" else 3
            ob = [("stack", len(f.stack) == n)]
            if len(f.stack) != n:
                return ob
            ob += [("stack kept", bv(f.stack[0]) == 0x1234), ("cold exactly if it was not in the list", bv(f.stack[-1]) == res)]
            fields = {}
            if kind == "slot":
                new = L.n + 1
                vp = bv(L.ptr(new) + 2)
                for i in L.order:
                    vp = z3.If(same(L.keys[i], key), bv(L.ptr(i) + 2), vp)
                ob.append(("value pointer is that of the entry", bv(f.stack[1]) == vp))
            ob.append(("new length", bv(f.rd(0, GM, gm(lenf))) == z3.If(mem, bv(L.end), bv(L.end + stride))))
            ob += frame(f, L, q, L.inserted(key, fields))
            ob += journal(f, st, key, jl, jd, jt, z3.Not(mem))
            return ob
        name = f"insert {kind}, order {order}, deleted {dead}" + (f", hint into segment {low}" if low is not None else "")
        ch.case(name, st, ob, halts={ret: "ret"}, validate=3 if low is None else 0, prover_hook=lambda E, s, fn: hint, max_paths=5000)

    def remove(ch, kind, order, dead):
        st, L, key, lenf, jl, jd, jt = setup(kind, order, dead, {"address": "remove_accessed_addresses", "slot": "remove_accessed_storage_keys"}[kind])
        hint = z3.BitVec("hint", 256)
        # hints outside of the list: the successor pointer they lead to is arbitrary memory; those are covered by 'hint into segment'
        mem = L.member(key)
        hon = L.honest(key, exact=False)

        def ob(f):
            if f.status == "stuck":
                return [("an honest hint is accepted", z3.Or(z3.Not(mem), hint != hon))]
            if f.status != "ret":
                return [("returns", False)]
            return [("stack", len(f.stack) == 1 and isint(f.stack[0]) and f.stack[0] == 0x1234), ("was in the list", mem),
                    ("length", bv(f.rd(0, GM, gm(lenf))) == L.end)] + frame(f, L, q, L.removed(key))
        ch.case(f"remove {kind}, order {order}, deleted {dead}", st, ob, halts={ret: "ret"}, validate=2, prover_hook=lambda E, s, fn: hint, max_paths=5000)

    def init(ch):
        st = State()
        st.pc = k.label("init_access_lists")
        st.stack = [0x1234, ret]
        for s in ("AccessedAddresses", "AccessedStorageKeys"):
            st.seg(0, k.seg[s]).base = func_base(s, 256)

        def ob(f):
            ob = [("returns", f.status == "ret" and len(f.stack) == 1)]
            for kind in KINDS:
                segname, stride, nk, nxt, bits, lenf, _, _ = KINDS[kind]
                b = k.seg[segname] << 32
                ob += [(f"{kind}: sentinel key", bv(f.rd(0, k.seg[segname], 0)) == U256), (f"{kind}: empty", bv(f.rd(0, k.seg[segname], nxt)) == b),
                       (f"{kind}: length", bv(f.rd(0, GM, gm(lenf))) == b + stride)]
            return ob + [("no pre-charged access list", bv(f.rd(0, GM, gm("ACCESS_LIST_DATA_COST"))) == 0)]
        ch.case("init", st, ob, halts={ret: "ret"}, validate=1)

    jobs = [("init", init)]
    for kind in KINDS:
        for n in range(0, 4 if ch.thorough else 3):
            for dead in (0, 1):
                if n + dead > 3 and not ch.thorough:
                    continue
                for o, d in shapes(n, dead):
                    jobs.append((f"insert {kind} {o} {d}", lambda ch, a=(kind, o, d): insert(ch, *a)))
                    jobs.append((f"remove {kind} {o} {d}", lambda ch, a=(kind, o, d): remove(ch, *a)))
        for low in [s for s in range(1, k.seg[KINDS[kind][0]]) if s not in (GM, k.seg["Stack"])]:
            jobs.append((f"insert {kind} low {low}", lambda ch, a=(kind, [1], [], low): insert(ch, *a)))
    ch.parallel(jobs)
    return ch.finish()
