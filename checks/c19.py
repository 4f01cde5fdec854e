"""C19: linked lists of accounts and storage slots."""
from fw import *
from klist import *


def run(tier):
    ch = KCheck("C19", tier)
    k = ch.k
    gm = lambda n: k.const["GLOBAL_METADATA_" + n] & MASK32
    GM, TD = k.seg["GlobalMetadata"], k.seg["TrieData"]
    ret = k.label("halt_final")
    ch.functions = ["kernel bytecode of store_initial_accounts, store_initial_slots, insert_account_with_overwrite, search_account, remove_account, insert_slot_with_value, insert_slot, search_slot, remove_slot, remove_all_account_slots (mpt/linked_list/linked_list.asm); run_linked_list (generation/prover_input.rs) on the models replayed with the real hints"]
    big = 3 if ch.thorough else 2
    ch.bound(f"lists of up to {big} live nodes and one deleted one in {'every' if ch.thorough else 'several'} physical order{'' if ch.thorough else 's'}, every 256-bit key, value, payload pointer and hint; initial lists of up to {big + 1} nodes with arbitrary words")
    ch.outside = ["longer lists: an operation touches the hinted node, its successors and the new node only", "the copy of a newly created account that nothing reads"]
    q = z3.BitVec("probe", 32)
    KINDS = {"account": ("AccountsLinkedList", 4, 1, 3, "ACCOUNTS_LINKED_LIST_NEXT_AVAILABLE"),
             "slot": ("StorageLinkedList", 5, 2, 4, "STORAGE_LINKED_LIST_NEXT_AVAILABLE")}
    TDLEN = 100

    def setup(kind, order, dead, label, extra=(), nk=None):
        segname, stride, nkeys, nxt, lenf = KINDS[kind]
        st = State()
        st.pc = k.label(label)
        L = KList(k, st, segname, stride, nkeys, nxt, order, dead)
        key = [z3.BitVec("addr_key", 256), z3.BitVec("slot_key", 256)][:nk or nkeys]
        st.assume(key[0] != U256)
        st.stack = [0x1234, ret] + list(reversed(key + list(extra)))
        st.seg(0, GM).write(gm(lenf), L.end)
        st.seg(0, GM).write(gm("TRIE_DATA_SIZE"), TDLEN)
        return st, L, key, lenf

    hint = z3.BitVec("hint", 256)

    def go(ch, name, st, L, kind, lenf, key, hon, pre, results, changes, grow, allow=None, exact=True):
        """pre: when the operation has to succeed with an honest hint; allow: when it may succeed at all"""
        def ob(f):
            if f.status == "stuck":
                return [("an honest hint is accepted", z3.Not(z3.And(pre, hint == hon)))]
            if f.status != "ret":
                return [("returns", False)]
            o = [("stack", len(f.stack) == 1 + len(results))]
            if len(f.stack) != 1 + len(results):
                return o
            if allow is not None:
                o.append(("succeeds only if it applies", allow))
            o += [("stack kept", bv(f.stack[0]) == 0x1234)] + [(f"result {i}", bv(f.stack[1 + i]) == r) for i, r in enumerate(results)]
            o += L.content(lambda a: f.rd(0, L.seg, a), changes, q, [L.len + 2] if kind == "account" else [])
            o.append(("next free node", bv(f.rd(0, GM, gm(lenf))) == z3.If(grow, bv(L.end + L.stride), bv(L.end))))
            return o
        ch.case(name, st, ob, halts={ret: "ret"}, validate=2, prover_hook=lambda E, s, fn: hint, max_paths=5000)

    def acc(ch, op, o, d):
        P = z3.BitVec("payload", 256)
        st, L, key, lenf = setup("account", o, d, {"insert": "insert_account_with_overwrite", "search": "search_account", "remove": "remove_account"}[op],
                                 [P] if op == "insert" else [])
        if op == "insert":
            st.seg(0, TD).base = func_base("triedata", 256)
            st.assume(z3.ULT(P, TDLEN - 5))
        name = f"{op} account, order {o}, deleted {d}"
        mem = L.member(key)
        T = z3.BoolVal(True)
        if op == "insert":
            chg = L.inserted(key, {1: P})
            chg += [(same(L.keys[i], key), i * 4 + 1, P) for i in L.order]
            go(ch, name, st, L, "account", lenf, key, L.honest(key), T, [], chg, z3.Not(mem))
        elif op == "search":
            r = bv(0)
            for i in L.order:
                r = z3.If(same(L.keys[i], key), bv(L.mem[i * 4 + 1]), r)
            go(ch, name, st, L, "account", lenf, key, L.honest(key), T, [r], [], z3.BoolVal(False))
        else:
            go(ch, name, st, L, "account", lenf, key, L.honest(key, False), mem, [], L.removed(key), z3.BoolVal(False), mem)

    def slot(ch, op, o, d):
        V = z3.BitVec("value", 256)
        lab = {"write": "insert_slot_with_value", "insert": "insert_slot", "search": "search_slot", "remove": "remove_slot", "remove all": "remove_all_account_slots"}[op]
        st, L, key, lenf = setup("slot", o, d, lab, [V] if op in ("insert", "write", "search") else [], nk=1 if op == "remove all" else 2)
        name = f"{op} slot, order {o}, deleted {d}"
        F, T = z3.BoolVal(False), z3.BoolVal(True)
        if op == "remove all":
            lo = [key[0], bv(0)]
            hon = bv(L.hint(0))
            for i in L.order:
                hon = z3.If(z3.ULT(L.keys[i][0], key[0]), bv(L.hint(i)), hon)
            chg = []
            # live list without the nodes of this account
            for i in L.order:
                chg.append((L.keys[i][0] == key[0], i * 5 + 4, U256))
            seq = [0] + L.order
            for j, i in enumerate(seq):
                keep = T if i == 0 else L.keys[i][0] != key[0]
                nxt = bv(L.ptr(0))
                for x in reversed(seq[j + 1:]):
                    nxt = z3.If(L.keys[x][0] == key[0], nxt, bv(L.ptr(x)))
                chg.append((keep, i * 5 + 4, nxt))
            return go(ch, name, st, L, "slot", lenf, key, hon, T, [], chg, F)
        mem = L.member(key)
        old = V
        for i in L.order:
            old = z3.If(same(L.keys[i], key), bv(L.mem[i * 5 + 2]), old)
        if op in ("insert", "write"):
            if op == "insert":
                st.seg(0, TD).base = func_base("triedata", 256)
                st.assume(z3.ULT(V, TDLEN - 5))
            chg = L.inserted(key, {2: V, 3: V if op == "write" else TDLEN}) + [(same(L.keys[i], key), i * 5 + 2, V) for i in L.order]
            go(ch, name, st, L, "slot", lenf, key, L.honest(key), T, [old] if op == "insert" else [], chg, z3.Not(mem))
        elif op == "search":
            go(ch, name, st, L, "slot", lenf, key, L.honest(key), T, [old], [], F)
        else:
            go(ch, name, st, L, "slot", lenf, key, L.honest(key, False), mem, [], L.removed(key), F, mem)

    def initial(ch, kind, n):
        """The list the prover lays out in memory is accepted only if it is sorted, and its lengths are stored."""
        segname, stride, nk, nxt, lenf = KINDS[kind]
        sg = k.seg[segname]
        base = sg << 32
        st = State()
        st.pc = k.label({"account": "store_initial_accounts", "slot": "store_initial_slots"}[kind])
        st.stack = [0x1234, ret]
        w = {}
        for i in range(n + 1):
            for j in range(stride):
                w[i, j] = z3.BitVec(f"w{i}_{j}", 256)
                st.seg(0, sg).write(i * stride + j, w[i, j])
        # pointers stay inside the segment, as the tables of the prover address them (an arbitrary one in general)
        for i in range(n + 1):
            st.assume(z3.ULT(w[i, nxt] - base, (n + 2) * stride))
        st.seg(0, GM).write(gm("TRIE_DATA_SIZE"), TDLEN)
        if kind == "account":
            st.seg(0, TD).base = func_base("triedata", 256)
            for i in range(1, n + 1):
                st.assume(z3.ULT(w[i, 1], TDLEN - 5))
        goods = []
        for m in range(n + 1):   # a list of m nodes
            g = [w[0, 0] == U256]
            for i in range(m + 1):
                g.append(w[i, nxt] == base + ((i + 1) % (m + 1)) * stride)
            for i in range(1, m):
                g.append(lexlt([w[i, j] for j in range(nk)], [w[i + 1, j] for j in range(nk)]))
            goods.append(z3.And(*g))
        good = z3.Or(*goods)

        def ob(f):
            if f.status == "stuck":
                return [("a sorted consecutive list is accepted", z3.Not(good))]
            if f.status != "ret":
                return [("returns", False)]
            o = [("stack", len(f.stack) == 1), ("accepted only if sorted and consecutive", good)]
            ln = bv(0)
            for m, g in enumerate(goods):
                ln = z3.If(g, bv(base + (m + 1) * stride), ln)
            init = {"account": "INITIAL_ACCOUNTS_LINKED_LIST_LEN", "slot": "INITIAL_STORAGE_LINKED_LIST_LEN"}[kind]
            o += [("length of the initial list", bv(f.rd(0, GM, gm(init))) == ln), ("next free node", bv(f.rd(0, GM, gm(lenf))) == ln)]
            for m, g in enumerate(goods):
                for i in range(1, m + 1):
                    if kind == "slot":
                        o.append((f"initial value of node {i} of {m}", z3.Implies(g, bv(f.rd(0, sg, i * 5 + 3)) == w[i, 2])))
                    else:
                        cp = TDLEN + 4 * (i - 1)
                        o.append((f"copy of account {i} of {m}", z3.Implies(g, z3.And(bv(f.rd(0, sg, i * 4 + 2)) == cp, *[bv(f.rd(0, TD, cp + x)) == st.seg(0, TD).base(z3.Extract(31, 0, w[i, 1]) + x) for x in range(4)]))))
            keep = z3.And(*[z3.Implies(q == i * stride + j, bv(f.rd(0, sg, q)) == w[i, j]) for i in range(n + 1) for j in range(stride) if not (i and j == (3 if kind == "slot" else 2))])
            o.append(("nodes unchanged", keep))
            return o
        ch.case(f"initial {kind} list, {n} nodes", st, ob, halts={ret: "ret"}, validate=2, max_paths=5000)

    def sequence(ch, name, kind, ops):
        """Operations chained from an empty list. Every ordering of the keys for which some hints carry the sequence through is
        replayed with the hints of the real prover, which have to carry it through as well."""
        segname, stride, nk, nxt, lenf = KINDS[kind]
        st = State()
        L = KList(k, st, segname, stride, nk, nxt, [])
        st.seg(0, GM).write(gm(lenf), L.end)
        st.seg(0, GM).write(gm("TRIE_DATA_SIZE"), TDLEN)
        stack = [0x1234, ret]
        for i, (label, args) in reversed(list(enumerate(ops))):
            stack += list(reversed(args)) + ([k.label(label)] if i else [])
        st.pc, st.stack = k.label(ops[0][0]), stack
        for _, args in ops:
            st.assume(args[0] != U256)
        E = Exec(k, halts={ret: "ret"}, max_paths=20000)
        try:
            done = E.run(st.clone())
        except Limit as e:
            ch.account(E)
            return ch.undecide(f"{name}: {e}")
        ch.account(E)
        n = 0
        for f in done:
            if f.status != "ret":
                if f.status in ("wild", "limit"):
                    ch.undecide(f"{name}: {f.err}")
                continue
            r, env = ch.query(f, True, 20000)
            if r == "unsat":
                continue
            if r != "sat":
                ch.undecide(f"{name}: no model")
                continue
            case = ch.concretize(st, env, f.touched, [], 100000)
            fin, rr = ch.real(case, {ret: "ret"}, True)
            ch.obligations += 1
            want = [evalz(x, env, {}) for x in f.stack]
            if fin.status != "ret" or fin.stack != want:
                ch.violation(f"{name}: with the hints of the real prover the sequence ends {fin.status} with {[hex(x) for x in fin.stack][-3:]} instead of {[hex(x) for x in want][-3:]}",
                             {"case": case, "final": rr, "halts": {str(ret): "ret"}}, key=f"{name}: real hints")
                break
            ch.validated += 1
            n += 1
        ch.sample({"case": name, "orderings replayed with real hints": n})

    def slots_seq(ch, third):
        a, b, x, y, v, w = [z3.BitVec(nm, 256) for nm in ("acc_a", "acc_b", "slot_x", "slot_y", "val_v", "val_w")]
        ops = [("insert_slot_with_value", [a, x, v]), ("remove_all_account_slots", [a]), ("insert_slot_with_value", [b, y, w])]
        ops.append(("search_slot", [a, x, bv(7)]) if third == "search" else ("remove_slot", [b, y]))
        sequence(ch, f"write, remove all slots, write, {third}", "slot", ops)

    def slots_seq2(ch):
        a, x, y, v, w = [z3.BitVec(nm, 256) for nm in ("acc_a", "slot_x", "slot_y", "val_v", "val_w")]
        sequence(ch, "write, remove, write, search", "slot", [("insert_slot_with_value", [a, x, v]), ("remove_slot", [a, x]), ("insert_slot_with_value", [a, y, w]), ("search_slot", [a, x, bv(7)])])

    def acc_seq(ch):
        a, b, c = [z3.BitVec(nm, 256) for nm in ("acc_a", "acc_b", "acc_c")]
        sequence(ch, "insert, remove, insert, search", "account", [("insert_account_with_overwrite", [a, bv(3)]), ("remove_account", [a]), ("insert_account_with_overwrite", [b, bv(4)]), ("search_account", [c])])

    jobs = []
    for third in ("search", "remove"):
        jobs.append((f"sequence {third}", lambda ch, t=third: slots_seq(ch, t)))
    jobs.append(("sequence slots", slots_seq2))
    jobs.append(("sequence accounts", acc_seq))
    for n in range(0, big + 1):
        for dead in (0, 1):
            for num, (o, d) in enumerate(shapes(n, dead)):
                if n + dead == 3 and dead and not ch.thorough and num % 2:
                    continue
                if n + dead == 4 and o != sorted(o) and o != sorted(o, reverse=True):
                    continue
                for op in ("insert", "search", "remove"):
                    jobs.append((f"{op} account {o} {d}", lambda ch, a=(op, o, d): acc(ch, *a)))
                for op in ("write", "insert", "search", "remove", "remove all"):
                    jobs.append((f"{op} slot {o} {d}", lambda ch, a=(op, o, d): slot(ch, *a)))
    for kind in KINDS:
        for n in range(0, big + 2):
            jobs.append((f"initial {kind} {n}", lambda ch, a=(kind, n): initial(ch, *a)))
    ch.parallel(jobs)
    return ch.finish()
