"""C24: value transfers conserve the total balance."""
from fw import *
from accts import *


def run(tier):
    ch = KCheck("C24", tier)
    k = ch.k
    ret = k.label("halt_final")
    TS = k.seg["TouchedAddresses"]
    ch.functions = ["kernel bytecode of transfer_eth, deduct_eth and add_eth with search_account, insert_account_with_overwrite and insert_touched_addresses (core/transfer.asm, mpt/linked_list/linked_list.asm, core/touched_addresses.asm)"]
    ch.bound("every address, amount and account content (256 bits); sender and recipient existing, absent or the same, on either side of each other and of a third account; up to two addresses touched before")
    ch.outside = ["adversarial list hints: C19 (here the hints are those of an honest prover)", "journalling of the transfer by the callers"]
    ch.assumptions = ["keccak256 does not collide on the addresses at hand", "the sum of all balances is below 2^256 before the transfer"]
    q = z3.BitVec("probe", 32)
    A = {n: z3.ZeroExt(96, z3.BitVec("addr_" + n, 160)) for n in ("from", "to", "third")}
    amt = z3.BitVec("amount", 256)

    def case(ch, op, order, exists, touched, samea=False):
        st = State()
        names = [(n, A[n], n in exists) for n in order]
        W = Accounts(ch, st, names)
        frm = "from"
        to = "from" if samea else "to"
        tl = [z3.ZeroExt(96, z3.BitVec(f"touched{i}", 160)) for i in range(touched)]
        for i, t in enumerate(tl):
            st.seg(0, TS).write(i, t)
        if touched == 2:
            st.assume(tl[0] != tl[1])
        W.g("TOUCHED_ADDRESSES_LEN", touched)
        W.g("JOURNAL_LEN", 2)
        W.g("JOURNAL_DATA_LEN", 9)
        label, args = {"transfer": ("transfer_eth", [A[frm], A[to], amt]), "deduct": ("deduct_eth", [A[frm], amt]), "add": ("add_eth", [A[to], amt])}[op]
        st.pc = k.label(label)
        st.stack = [0x1234, ret] + list(reversed(args))
        bal = {n: W.field(n, 1) for n in W.node}
        if frm in W.node and to in W.node and to != frm:
            st.assume(z3.UGE(bal[frm] + bal[to], bal[frm]))
        if op == "add" and to in W.node:
            st.assume(z3.UGE(bal[to] + amt, amt))
        seq = []
        if op != "add":
            seq.append(frm)
        if op != "deduct":
            seq.append(to)

        def hook(E, s, fn):
            f = str(fn)
            i = s.notes.get("n", 0)
            s.notes["n"] = i + 1
            # searches of the accounts in turn; an insertion is of the recipient
            return W.hint(seq[min(i, len(seq) - 1)])

        can = z3.ULE(amt, bal[frm]) if frm in W.node else z3.BoolVal(False)
        creates = op != "deduct" and to not in W.node

        def ob(f):
            if f.status != "ret":
                return [("returns", False)]
            n = 1 if op == "add" else 2
            o = [("stack", len(f.stack) == n and f.stack[0] == 0x1234)]
            if len(f.stack) != n:
                return o
            okc = can if op != "add" else z3.BoolVal(True)
            if op != "add":
                o.append(("status", bv(f.stack[1]) == z3.If(okc, bv(0), bv(1))))
            chg = {}
            if op == "transfer" and to == frm:
                pass
            else:
                if op != "add" and frm in W.node:
                    chg[W.ptr(frm) + 1] = z3.If(okc, bal[frm] - amt, bal[frm])
                if op != "deduct" and to in W.node:
                    chg[W.ptr(to) + 1] = z3.If(okc, bal[to] + amt, bal[to])
            o += W.data(f, chg)
            made = z3.And(okc, amt != 0) if creates else z3.BoolVal(False)
            L = W.L
            if creates:
                key = [W.key[to]]
                pr = L.order[[m for m in W.names if m in W.node].index(p)] if (p := next((m for m in reversed(W.names[:W.names.index(to)]) if m in W.node), None)) else 0
                nw = L.len
                chl = [(made, pr * 4 + 3, L.base + nw), (made, nw, W.key[to]), (made, nw + 1, TDLEN), (made, nw + 3, L.ptr(L.next[pr]))]
                for j, v in enumerate((0, amt, 0, EMPTY_CODE)):
                    o.append((f"new account field {j}", z3.Implies(made, bv(f.rd(0, W.TD, TDLEN + j)) == v)))
            else:
                chl = []
            o += L.content(lambda a: f.rd(0, L.seg, a), chl, q, [L.len + 2])
            o.append(("accounts", W.gr(f, "ACCOUNTS_LINKED_LIST_NEXT_AVAILABLE") == z3.If(made, bv(L.end + 4), bv(L.end))))
            # touched addresses: a set without duplicates that gained exactly the parties
            tlen = W.gr(f, "TOUCHED_ADDRESSES_LEN")
            o.append(("no more than the parties touched", z3.ULE(tlen, touched + len(set(seq)))))
            slots = [(bv(f.rd(0, TS, i)), z3.UGT(tlen, i)) for i in range(touched + 2)]
            want = list(tl) + [A[n] for n in dict.fromkeys(seq)]
            for i, w in enumerate(want):
                need = okc if i == touched + 1 else z3.BoolVal(True)
                o.append((f"touched {i}", z3.Implies(need, z3.Or(*[z3.And(l, a == w) for a, l in slots]))))
            for i, (a, l) in enumerate(slots):
                o.append((f"touched entry {i}", z3.Implies(l, z3.Or(*[a == w for w in want]))))
                for b, l2 in slots[i + 1:]:
                    o.append(("no duplicates", z3.Implies(l2, a != b)))
            return o
        ch.case(f"{op} {'to itself ' if samea else ''}order {order} existing {sorted(exists)} touched {touched}", st, ob, halts={ret: "ret"}, validate=1, prover_hook=hook, max_paths=2000)

    jobs = []
    def add(*a):
        jobs.append((f"{a}", lambda ch: case(ch, *a)))
    third = [[], ["third"]]
    for t in third:
        for order in itertools.permutations(["from", "to"] + t):
            for ex in ([], ["from"], ["to"], ["from", "to"]):
                if t and not ch.thorough and ex in ([], ["to"]):
                    continue
                add("transfer", list(order), set(ex) | set(t), 0)
    for tch in (1, 2):
        for ex in (["from"], ["from", "to"]):
            add("transfer", ["from", "to"], set(ex), tch)
            add("transfer", ["to", "from"], set(ex), tch)
    for order in (["from"], ["from", "third"], ["third", "from"]):
        for ex in (["from"], []):
            add("transfer", order, set(ex) | set(order[1:] if order[0] == "from" else order[:1]), 1, True)
    for order in (["to"], ["to", "third"], ["third", "to"]):
        for ex in ({"to"}, set()):
            add("add", order, ex | (set(order) - {"to"}), 1)
    for order in (["from"], ["from", "third"]):
        for ex in ({"from"}, set()):
            add("deduct", order, ex | (set(order) - {"from"}), 1)
    ch.parallel(jobs)
    return ch.finish()
