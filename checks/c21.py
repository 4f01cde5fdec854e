"""C21: reverting to a checkpoint restores the state."""
from fw import *
from accts import *

B160 = lambda n: z3.ZeroExt(96, z3.BitVec(n, 160))
V = lambda n: z3.BitVec(n, 256)


class Rev:
    """A kernel state in context `ctx` with one older journal entry and a checkpoint to go back to."""

    def __init__(self, ch, names=(), live=(), touched=(), ctx=1, nested=1, prefix=1):
        self.ch, self.k = ch, ch.k
        k = ch.k
        st = self.st = State()
        self.ctx = st.ctx = ctx
        self.A = {n: B160("addr_" + n) for n in names}
        self.W = Accounts(ch, st, [(n, self.A[n], n in live) for n in names])
        for a, b in itertools.combinations(names, 2):
            st.assume(self.A[a] != self.A[b])
        for a in names:
            st.assume(self.A[a] != 3)       # EIP-716: the address of RIPEMD160 stays touched
        self.GM = k.seg["GlobalMetadata"]
        self.CM = k.seg["ContextMetadata"]
        self.J, self.JD, self.JC = k.seg["Journal"], k.seg["JournalData"], k.seg["JournalCheckpoints"]
        self.TS = k.seg["TouchedAddresses"]
        self.w0 = {}
        g = self.g
        # an older entry, which must stay
        self.data = [k.const["JOURNAL_ENTRY_REFUND"], V("old_refund")] * prefix
        self.ptrs = [2 * i for i in range(prefix)]
        self.base = prefix
        self.refund = V("refund")
        g("REFUND_COUNTER", self.refund)
        st.seg(ctx, self.CM).write(k.const["CTX_METADATA_CHECKPOINTS_LEN"] & MASK32, 2)
        st.seg(ctx, k.seg["ContextCheckpoints"]).write(0, 3)
        st.seg(ctx, k.seg["ContextCheckpoints"]).write(1, 7)
        self.nested = nested
        st.seg(0, self.JC).write(3, 0)
        st.seg(0, self.JC).write(7, prefix)
        g("CURRENT_CHECKPOINT", 7 + nested)
        self.touched = list(touched)
        for i, t in enumerate(self.touched):
            st.seg(0, self.TS).write(i, t)
        g("TOUCHED_ADDRESSES_LEN", len(self.touched))
        for n, f in (("logs_len", "LOGS_LEN"), ("logs_data", "LOGS_DATA_LEN"), ("logs_payload", "LOGS_PAYLOAD_LEN")):
            setattr(self, n, None)
        self.globals = {"REFUND_COUNTER": self.refund}
        self.junk = V("junk")
        self.q = z3.BitVec("probe", 32)
        self.SL = KList(k, st, "StorageLinkedList", 5, 2, 4, [], [], name="sl")
        g("STORAGE_LINKED_LIST_NEXT_AVAILABLE", self.SL.end)
        self.lists = []

    def g(self, f, v):
        self.st.seg(0, self.k.seg["GlobalMetadata"]).write(self.k.const["GLOBAL_METADATA_" + f] & MASK32, v)

    def keep(self, f, v):
        """global metadata that has to be v in the end"""
        self.g(f, v)
        self.globals[f] = v

    def entry(self, typ, *words):
        self.ptrs.append(len(self.data))
        self.data += [self.k.const["JOURNAL_ENTRY_" + typ], *words]

    def start(self, label, *args, splits=()):
        """run label(args), which returns into revert_checkpoint"""
        st, k = self.st, self.k
        for i, x in enumerate(self.ptrs):
            st.seg(0, self.J).write(i, x)
        for i, x in enumerate(self.data):
            st.seg(0, self.JD).write(i, x)
        self.g("JOURNAL_LEN", len(self.ptrs))
        self.g("JOURNAL_DATA_LEN", len(self.data))
        for i in range(1, self.nested):
            st.seg(0, self.JC).write(7 + i, splits[i - 1])
        ret = k.label("halt_final")
        self.halts = {ret: "ret"}
        if label == "revert_checkpoint":
            st.stack = [self.junk, ret]
        else:
            st.stack = [self.junk, ret, k.label("revert_checkpoint"), *reversed(args)]
        st.pc = k.label(label)
        self.nstack = 1

    def common(self, f, changes={}, acc=(), ts=None):
        k = self.k
        if f.status != "ret":
            return [("returns", False)]
        rd = lambda n: bv(f.rd(0, self.GM, k.const["GLOBAL_METADATA_" + n] & MASK32))
        o = [("stack", len(f.stack) == self.nstack)]
        if len(f.stack) == self.nstack and self.junk is not None:
            o.append(("stack content", bv(f.stack[0]) == self.junk))
        o += [("context", f.ctx == self.ctx), ("journal cut at the checkpoint", rd("JOURNAL_LEN") == self.base), ("current checkpoint", rd("CURRENT_CHECKPOINT") == 7),
              ("checkpoint popped", bv(f.rd(self.ctx, self.CM, k.const["CTX_METADATA_CHECKPOINTS_LEN"] & MASK32)) == 1)]
        for i in range(self.base):
            o.append((f"older journal entry {i}", z3.And(bv(f.rd(0, self.J, i)) == 2 * i, bv(f.rd(0, self.JD, 2 * i)) == k.const["JOURNAL_ENTRY_REFUND"], bv(f.rd(0, self.JD, 2 * i + 1)) == V("old_refund"))))
        for n, v in self.globals.items():
            o.append((n.lower().replace("_", " "), rd(n) == v))
        o += self.W.data(f, changes)
        L = self.W.L
        o += [("accounts: " + n, c) for n, c in L.content(lambda a: f.rd(0, L.seg, a), list(acc), self.q, [L.len + 2])]
        o += [("slots: " + n, c) for n, c in self.SL.content(lambda a: f.rd(0, self.SL.seg, a), [], self.q)]
        # touched addresses as a set
        ts = self.touched if ts is None else ts
        o.append(("touched count", rd("TOUCHED_ADDRESSES_LEN") == len(ts)))
        got = [bv(f.rd(0, self.TS, i)) for i in range(len(ts))]
        for t in ts:
            o.append(("touched before", z3.Or(*[x == t for x in got])))
        for L, changes in self.lists:
            o += [("list: " + n, c) for n, c in L.content(lambda a: f.rd(0, L.seg, a), changes, self.q)]
        return o

    def hook(self, seq, more={}):
        """honest hints: accounts searched in the order seq; other functions by name"""
        def h(E, s, fn):
            f = str(fn)
            for n, v in more.items():
                if n in f:
                    return v(s) if callable(v) else v
            if "search_account" in f:
                i = s.notes.get("n", 0)
                s.notes["n"] = i + 1
                return self.W.hint(seq[min(i, len(seq) - 1)])
            if "remove_address_slots" in f:
                return self.SL.hint(0)
            raise KeyError(f)
        return h


def run(tier):
    ch = KCheck("C21", tier)
    k = ch.k
    ch.functions = ["kernel bytecode of revert_checkpoint and all revert_* handlers (journal/), and of increment_nonce, set_codehash, add_eth, insert_touched_addresses, insert_accessed_addresses, insert_accessed_storage_keys, log_n_entry, sys_selfdestruct and create_common's contract creation, run before the revert"]
    ch.bound("one journal entry of every type and pairs of them with arbitrary words; one or two nested checkpoints; up to two accounts, list entries, touched addresses and self-destructs around the one at hand")
    ch.outside = ["longer journals", "adversarial list hints: C18, C19 (here the hints are those of an honest prover)"]
    ch.assumptions = ["keccak256 does not collide on the addresses at hand", "a journal entry holds the values before the change (the operations that are run here, C25 for SSTORE)"]
    jobs = []

    def job(name, f, *a):
        jobs.append((name, lambda ch: f(ch, name, *a)))

    def go(ch, name, r, hook, chg={}, acc=(), ts=None, extra=None, vary=1):
        def ob(f):
            o = r.common(f, chg, acc, ts)
            if extra and f.status == "ret":
                o += extra(f)
            return o
        ch.case(name, r.st, ob, halts=r.halts, validate=1, prover_hook=hook, max_paths=3000)

    # ---- hand-written journals
    def simple(ch, name, typ, order, nested):
        r = Rev(ch, order, ["a", "b"], touched=[B160("addr_a")], nested=nested)
        a = r.A["a"]
        chg = {}
        prev = V("prev")
        if typ == "NONCE_CHANGE":
            r.entry(typ, a, prev)
            chg = {r.W.ptr("a"): prev}
        elif typ == "CODE_CHANGE":
            r.entry(typ, a, prev)
            chg = {r.W.ptr("a") + 3: prev}
        elif typ == "REFUND":
            r.entry(typ, prev)
            r.globals["REFUND_COUNTER"] = r.refund - prev
        elif typ == "BALANCE_TRANSFER":
            r.entry(typ, a, r.A["b"], prev)
            ba, bb = r.W.field("a", 1), r.W.field("b", 1)
            r.st.assume(z3.UGE(bb, prev))
            r.st.assume(z3.UGE(ba + prev, prev))
            chg = {r.W.ptr("a") + 1: ba + prev, r.W.ptr("b") + 1: bb - prev}
            r.touched = [r.A["a"], r.A["b"]]
            r.st.seg(0, r.TS).write(1, r.A["b"])
            r.g("TOUCHED_ADDRESSES_LEN", 2)
        elif typ == "LOG":
            d, p, n = V("logs_data_len"), V("logs_payload_len"), V("logs_len")
            r.entry(typ, d, p)
            r.g("LOGS_LEN", n + 1)
            r.g("LOGS_DATA_LEN", V("x"))
            r.g("LOGS_PAYLOAD_LEN", V("y"))
            r.globals.update(LOGS_LEN=n, LOGS_DATA_LEN=d, LOGS_PAYLOAD_LEN=p)
        elif typ == "TWO":
            # the first of two changes of one field wins
            r.entry("NONCE_CHANGE", a, prev)
            r.entry("NONCE_CHANGE", a, V("mid"))
            r.entry("CODE_CHANGE", r.A["b"], V("code0"))
            chg = {r.W.ptr("a"): prev, r.W.ptr("b") + 3: V("code0")}
        sp = [len(r.ptrs) - 1] * 2 if nested > 1 else []
        r.start("revert_checkpoint", splits=sp)
        seq = {"BALANCE_TRANSFER": ["b", "a"], "TWO": ["b", "a", "a"]}.get(typ, ["a"])
        go(ch, name, r, r.hook(seq), chg)

    for typ in ("NONCE_CHANGE", "CODE_CHANGE", "REFUND", "BALANCE_TRANSFER", "LOG", "TWO"):
        for order in (["a", "b"], ["b", "a"]):
            for nested in (1, 2):
                if order == ["a", "b"] or typ in ("BALANCE_TRANSFER", "TWO"):
                    job(f"{typ} order {order} nested {nested}", simple, typ, order, nested)

    def touched(ch, name, pos, n):
        ts = [B160(f"t{i}") for i in range(n)]
        r = Rev(ch, ["a"], ["a"], touched=ts)
        for x, y in itertools.combinations(ts, 2):
            r.st.assume(x != y)
        r.entry("ACCOUNT_TOUCHED", ts[pos])
        r.start("revert_checkpoint")
        rip = ts[pos] == 3

        def ob(f):
            if f.status != "ret":
                return [("returns", False)]
            o = [x for x in r.common(f) if not x[0].startswith("touched")]
            ln = bv(f.rd(0, r.GM, k.const["GLOBAL_METADATA_TOUCHED_ADDRESSES_LEN"] & MASK32))
            o.append(("touched count", ln == z3.If(rip, bv(n), bv(n - 1))))
            got = [(bv(f.rd(0, r.TS, i)), z3.UGT(ln, i)) for i in range(n)]
            for i, t in enumerate(ts):
                inn = z3.Or(*[z3.And(l, x == t) for x, l in got])
                o.append((f"touched {i}", z3.If(rip, inn, z3.Not(inn)) if i == pos else inn))
            return o
        ch.case(name, r.st, ob, halts=r.halts, validate=1, prover_hook=r.hook(["a"]))
    for n in (1, 2, 3):
        for pos in range(n):
            job(f"ACCOUNT_TOUCHED {pos} of {n}", touched, pos, n)

    def transient(ch, name, pos, n):
        r = Rev(ch, ["a"], ["a"])
        T = k.seg["TransientStorage"]
        es = [(B160(f"ta{i}"), V(f"ts{i}"), V(f"tv{i}")) for i in range(n)]
        for i, e in enumerate(es):
            for j, x in enumerate(e):
                r.st.seg(0, T).write(3 * i + j, x)
            for e2 in es[:i]:
                r.st.assume(z3.Not(same(e[:2], e2[:2])))
        r.keep("TRANSIENT_STORAGE_LEN", (T << 32) + 3 * n)
        prev = V("prev")
        r.entry("TRANSIENT_STORAGE_CHANGE", es[pos][0], es[pos][1], prev)
        r.start("revert_checkpoint")

        def extra(f):
            return [(f"transient {i}.{j}", bv(f.rd(0, T, 3 * i + j)) == (prev if (i, j) == (pos, 2) else x)) for i, e in enumerate(es) for j, x in enumerate(e)]
        go(ch, name, r, r.hook(["a"]), extra=extra)
    for n in (1, 2, 3):
        for pos in range(n):
            job(f"TRANSIENT_STORAGE_CHANGE {pos} of {n}", transient, pos, n)

    def storage(ch, name, present, zero, other):
        """revert of a storage change: the slot is now present or not, and goes back to prev"""
        r = Rev(ch, ["a"], ["a"])
        a, slot, prev = r.A["a"], V("slot"), V("prev")
        key = [r.W.key["a"], kec(slot, 32)]
        n0 = len(r.st.conds)
        n = int(present) + int(bool(other))
        me, oth = (1 if present else None), ((2 if present else 1) if other else None)
        order = [x for x in ([oth, me] if other == -1 else [me, oth]) if x]
        L = r.SL = KList(k, r.st, "StorageLinkedList", 5, 2, 4, order, [], name="sl")
        del r.st.conds[n0:]
        if present:
            L.keys[1] = key
            L.mem[5], L.mem[6] = key
        if other:
            ok = [V("other_addr_key"), V("other_slot_key")]
            L.keys[oth] = ok
            L.mem[oth * 5], L.mem[oth * 5 + 1] = ok
            r.st.assume(ok[0] != U256)
            r.st.assume(lexlt(ok, key) if other == -1 else lexlt(key, ok))
        for x, v in L.mem.items():
            r.st.seg(0, L.seg).write(x, v)
        r.g("STORAGE_LINKED_LIST_NEXT_AVAILABLE", L.end)
        r.st.assume(prev == 0 if zero else prev != 0)
        r.entry("STORAGE_CHANGE", a, slot, prev)
        r.start("revert_checkpoint")
        pr = oth if other == -1 else 0
        if present and zero:
            chl = [(z3.BoolVal(True), pr * 5 + 4, L.ptr(L.next[1])), (z3.BoolVal(True), 9, U256)]
        elif present:
            chl = [(z3.BoolVal(True), 7, prev)]
        else:
            nw = L.len
            T = z3.BoolVal(True)
            chl = [(T, pr * 5 + 4, L.base + nw), (T, nw + 4, L.ptr(L.next[pr])), (T, nw, bv(key[0])), (T, nw + 1, bv(key[1])), (T, nw + 2, prev), (T, nw + 3, prev)]

        def ob(f):
            o = [x for x in r.common(f) if not x[0].startswith("slots")]
            if f.status != "ret":
                return o
            # word 3 of a node (its initial value) is not read again
            o += [("slots: " + nm, c) for nm, c in L.content(lambda x: f.rd(0, L.seg, x), chl, r.q, [L.len + 3])]
            return o
        h = r.hook(["a"], {"remove_slot": L.hint(pr), "insert_slot": L.hint(1 if present else pr), "search_slot": L.hint(1 if present else pr)})
        ch.case(name, r.st, ob, halts=r.halts, validate=1, prover_hook=h)
    for other in (None, -1, 1):
        for present, zero in ((True, True), (True, False), (False, False)):
            job(f"STORAGE_CHANGE present {present} to zero {zero} other {other}", storage, present, zero, other)

    def destroyed(ch, name, order, live, selfd, listed, zero):
        r = Rev(ch, order, live, touched=[B160("addr_a")])
        W = r.W
        prev = V("prev")
        r.st.assume(prev == 0 if zero else prev != 0)
        tgt = "a" if selfd else "b"
        S = k.seg["SelfDestructList"]
        sl = [V("sd0"), *([r.A["a"]] if listed else []), *([V("sd1")] if listed == 2 else [])]
        for i, x in enumerate(sl):
            r.st.seg(0, S).write(i, x)
            if x is not r.A["a"]:
                r.st.assume(x != r.A["a"])
        r.g("SELFDESTRUCT_LIST_LEN", len(sl))
        r.entry("ACCOUNT_DESTROYED", r.A["a"], r.A[tgt], prev)
        r.start("revert_checkpoint")
        # after the operation: nothing left in a; its balance is in b, or gone if a was to be deleted
        ba = W.field("a", 1)
        if selfd:
            r.st.assume(z3.Or(ba == prev, ba == 0))
        else:
            r.st.assume(ba == 0)
            if "b" in live:
                r.st.assume(z3.UGE(W.field("b", 1), prev))
        chg = {W.ptr("a") + 1: prev}
        if not selfd and "b" in live:
            chg[W.ptr("b") + 1] = W.field("b", 1) - prev

        def extra(f):
            left = [x for x in sl if x is not r.A["a"]]
            got = [bv(f.rd(0, S, i)) for i in range(len(left))]
            return [("self-destructs left", bv(f.rd(0, r.GM, k.const["GLOBAL_METADATA_SELFDESTRUCT_LIST_LEN"] & MASK32)) == len(left))] + \
                [("older self-destruct", z3.Or(*[g == x for g in got])) for x in left]
        go(ch, name, r, r.hook([tgt, "a"]), chg, extra=extra)
    for listed in (0, 1, 2):
        job(f"ACCOUNT_DESTROYED to itself listed {listed}", destroyed, ["a", "b"], ["a", "b"], True, listed, False)
        for order in (["a", "b"], ["b", "a"]):
            for zero in (False, True):
                job(f"ACCOUNT_DESTROYED order {order} listed {listed} zero {zero}", destroyed, order, ["a", "b"], False, listed, zero)

    # ---- operations followed by the revert
    def op(ch, name, label, order, live, args, seq, mk=None, more={}, acc=None, tb=(), extra=None):
        r = Rev(ch, order, live, touched=[B160("addr_" + t) for t in tb])
        vals = [r.A[x] if x in order else V(x) for x in args]
        if mk:
            more = {**more, **mk(r)}
        r.start(label, *vals)
        go(ch, name, r, r.hook(seq, more), {}, acc(r) if acc else ())

    for order in (["a"], ["a", "b"], ["b", "a"]):
        job(f"increment_nonce {order}", op, "increment_nonce", order, order, ["a"], ["a"])
        for tb in ([], ["a"], ["b"]):
            if all(t in order for t in tb):
                job(f"set_codehash {order} touched {tb}", op, "set_codehash", order, order, ["a", "codehash"], ["a"], None, {}, None, tb)

    def created(ch, name, order, tb):
        """add_eth creates the account, the revert deletes it"""
        live = [x for x in order if x != "a"]
        r = Rev(ch, order, live, touched=[r_ for r_ in [B160("addr_" + t) for t in tb]])
        amt = V("amount")
        r.st.assume(amt != 0)
        r.start("add_eth", r.A["a"], amt)
        W, L = r.W, r.W.L
        T = z3.BoolVal(True)
        nw = L.len
        acc = [(T, nw, W.key["a"]), (T, nw + 1, TDLEN), (T, nw + 3, U256)]
        go(ch, name, r, r.hook(["a"], {"insert_account": W.hint("a"), "remove_account": W.hint("a", False)}), {}, acc)
    for order in (["a"], ["a", "b"], ["b", "a"]):
        for tb in ([], ["a"]):
            job(f"add_eth creating {order} touched {tb}", created, order, tb)

    def touch(ch, name, n):
        ts = [B160(f"t{i}") for i in range(n)]
        r = Rev(ch, ["a"], ["a"], touched=ts)
        for x, y in itertools.combinations(ts, 2):
            r.st.assume(x != y)
        r.start("insert_touched_addresses", r.A["a"])
        go(ch, name, r, r.hook(["a"]))
    for n in (0, 1, 2):
        job(f"insert_touched_addresses after {n}", touch, n)

    def access(ch, name, slots, order, at):
        """a new entry of an access list between the others"""
        r = Rev(ch, ["a"], ["a"])
        nk = 2 if slots else 1
        seg, stride, nxt = ("AccessedStorageKeys", 4, 3) if slots else ("AccessedAddresses", 2, 1)
        L = KList(k, r.st, seg, stride, nk, nxt, order, [], [160, 256][:nk], name="al")
        key = [r.A["a"]] + ([V("slot")] if slots else [])
        seqn = [0] + order
        if at:
            r.st.assume(lexlt(L.keys[seqn[at]], key))
        else:
            r.st.assume(z3.UGE(r.A["a"], 0))
        if at < len(order):
            r.st.assume(lexlt(key, L.keys[order[at]]))
        r.g("ACCESSED_STORAGE_KEYS_LEN" if slots else "ACCESSED_ADDRESSES_LEN", L.end)
        pr = seqn[at]
        T = z3.BoolVal(True)
        nw = L.len
        r.lists.append((L, [(T, nw + j, x) for j, x in enumerate(key)] + [(T, nw + nxt, U256)]))
        r.start("insert_accessed_storage_keys" if slots else "insert_accessed_addresses", *key)
        # both leave results below the return address: the revert starts from there
        h = r.hook(["a"], {"insert": L.hint(pr), "remove": L.hint(pr)})
        return r, h

    def access_case(ch, name, slots, order, at):
        r, h = access(ch, name, slots, order, at)
        # insert_* returns values above the return address of the revert: it is reached through a jump from the results' consumer,
        # so the two steps are run with the results discarded by the halt of the first one
        kk = ch.k
        ret = kk.label("halt_final")
        L, chl = r.lists[0]
        r.entry("STORAGE_LOADED" if slots else "ACCOUNT_LOADED", r.A["a"], *([V("slot")] if slots else []))
        # the state after the insertion
        key = [r.A["a"]] + ([V("slot")] if slots else [])
        pr = ([0] + order)[at]
        nw = L.len
        w = r.st.seg(0, L.seg).write
        for j, x in enumerate(key):
            w(nw + j, x)
        w(nw + L.nxt, L.ptr(L.next[pr]))
        w(pr * L.stride + L.nxt, L.base + nw)
        r.g("ACCESSED_STORAGE_KEYS_LEN" if slots else "ACCESSED_ADDRESSES_LEN", L.end + L.stride)
        r.start("revert_checkpoint")
        go(ch, name, r, h)
    for slots in (False, True):
        for order in ([], [1], [1, 2], [2, 1]):
            for at in range(len(order) + 1):
                job(f"{'STORAGE' if slots else 'ACCOUNT'}_LOADED list {order} at {at}", access_case, slots, order, at)

    def log(ch, name, topics, size):
        r = Rev(ch, ["a"], ["a"])
        r.keep("LOGS_LEN", 2)
        r.keep("LOGS_DATA_LEN", 9)
        r.keep("LOGS_PAYLOAD_LEN", V("payload"))
        off = 5
        r.start("log_n_entry", r.A["a"], topics, *[V(f"topic{i}") for i in range(topics)], size, off)
        go(ch, name, r, r.hook(["a"], {"num_bits": lambda s: simp(s.stack[-1]).bit_length()}))
    for topics in range(5):
        for size in (0, 1, 3):
            if ch.thorough or size == topics % 3 or (topics, size) == (1, 0):
                job(f"log {topics} topics {size} bytes", log, topics, size)

    def selfdestruct(ch, name, order, live, selfd, just, zero, tb):
        """SELFDESTRUCT of a child frame, then its parent frame fails: terminate_common jumps to the parent's pc"""
        r = Rev(ch, order, live, touched=[B160("addr_" + t) for t in tb])
        W, st = r.W, r.st
        C = 2
        st.ctx = C
        cm = lambda n: k.const["CTX_METADATA_" + n] & MASK32
        w = lambda f, v, c=C: st.seg(c, r.CM).write(cm(f), v)
        w("ADDRESS", r.A["a"])
        w("STATIC", 0)
        w("GAS_LIMIT", 1 << 31)
        w("PARENT_CONTEXT", 1 << 64)
        w("PARENT_PC", k.label("revert_checkpoint"))
        w("STACK_SIZE", 0, 1)
        r.g("CALL_STACK_DEPTH", 1)
        S, CC = k.seg["SelfDestructList"], k.seg["CreatedContracts"]
        old = V("sd0")
        st.assume(old != r.A["a"])
        st.seg(0, S).write(0, old)
        r.keep("SELFDESTRUCT_LIST_LEN", 1)
        other = B160("created0")
        st.assume(other != r.A["a"])
        cc = [other] + ([r.A["a"]] if just else [])
        for i, x in enumerate(cc):
            st.seg(0, CC).write(i, x)
        r.keep("CREATED_CONTRACTS_LEN", len(cc))
        bal = W.field("a", 1)
        st.assume(bal == 0 if zero else bal != 0)
        tgt = "a" if selfd else "b"
        if not selfd and "b" in live:
            st.assume(z3.UGE(bal + W.field("b", 1), bal))
        # every address is warm already
        ad = KList(k, st, "AccessedAddresses", 2, 1, 1, [1], [], [160], name="al")
        ad.keys[1] = [r.A[tgt]]
        ad.mem[2] = r.A[tgt]
        st.seg(0, ad.seg).write(2, r.A[tgt])
        r.g("ACCESSED_ADDRESSES_LEN", ad.end)
        r.lists.append((ad, []))
        r.start("revert_checkpoint")
        st.pc = k.label("sys_selfdestruct")
        gas = z3.BitVec("gas_used", 20)
        st.stack = [r.A[tgt], z3.Concat(z3.BitVecVal(0, 44), gas, z3.BitVecVal(0, 160), z3.BitVec("ret_pc", 32))]
        r.junk = None
        # the parent gets (success, leftover gas): with success as the return address of the revert
        r.halts = {1: "ret"}
        st.ctx = C

        def hook(E, s, fn):
            f = str(fn)
            if "address_insert" in f:
                return ad.hint(1)
            if "insert_account" in f:
                s.notes["made"] = True
                return W.hint(tgt)
            if "remove_account" in f:
                return W.hint(tgt, False)
            if "remove_address_slots" in f:
                return r.SL.hint(0)
            if "search_account" in f:
                return ("search",)
            raise KeyError(f)
        # hints of searches depend on the key that is searched: the top of the stack below the hint
        def h(E, s, fn):
            v = hook(E, s, fn)
            if v == ("search",):
                key = simp(s.stack[-1])
                for n in W.names:
                    if z3.is_bv(key) and z3.is_bv(W.key[n]) and z3.eq(z3.simplify(bv(key)), z3.simplify(bv(W.key[n]))):
                        return W.L.hint(W.L.n + 1) if s.notes.get("made") and n == tgt and n not in W.node else W.hint(n)
                raise KeyError("unknown key")
            return v
        nl = [x for x in order if x not in live]

        def extra(f):
            got = bv(f.rd(0, S, 0))
            return [("older self-destruct", got == old), ("created contract", bv(f.rd(0, CC, 0)) == other)]
        acc = []
        if nl and not zero and not selfd:
            L = W.L
            T = z3.BoolVal(True)
            acc = [(T, L.len, W.key["b"]), (T, L.len + 1, TDLEN), (T, L.len + 3, U256)]
        go(ch, name, r, h, {}, acc, extra=extra)
    for just in (False, True):
        for zero in (False, True):
            job(f"SELFDESTRUCT to itself created {just} zero {zero}", selfdestruct, ["a", "b"], ["a", "b"], True, just, zero, ["a"])
            for order in (["a", "b"], ["b", "a"]):
                for live in (["a", "b"], ["a"]):
                    job(f"SELFDESTRUCT order {order} existing {live} created {just} zero {zero}", selfdestruct, order, live, False, just, zero, [])
    ch.parallel(jobs)
    return ch.finish()
