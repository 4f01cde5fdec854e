"""Shared encoding of the CPU table (C08-C12): one case per operation flag, opcode and mode."""
from stark import *
from arith import dbg_cpu
from field import padd, pmul, pscale, pconst, psub, peval

W = (1 << 32) - 1

# flag -> ((opcodes, modes), ...); modes: "uk" both, "k" kernel only
LEGAL = {
    "binary_op": {0x01: "uk", 0x02: "uk", 0x03: "uk", 0x04: "uk", 0x06: "uk", 0x10: "uk", 0x11: "uk", 0x1a: "uk"},
    "ternary_op": {0x08: "uk", 0x09: "uk", 0x0f: "k"},
    "fp254_op": {0x0c: "k", 0x0d: "k", 0x0e: "k"},
    "eq_iszero": {0x14: "uk", 0x15: "uk"},
    "logic_op": {0x16: "uk", 0x17: "uk", 0x18: "uk"},
    "not_pop": {0x19: "uk", 0x50: "uk"},
    "shift": {0x1b: "uk", 0x1c: "uk"},
    "jumpdest_keccak_general": {0x5b: "uk", 0x21: "k"},
    "jumps": {0x56: "uk", 0x57: "uk"},
    "push_prover_input": {**{o: "uk" for o in range(0x60, 0x80)}, 0xee: "k"},
    "dup_swap": {o: "uk" for o in range(0x80, 0xa0)},
    "context_op": {0xf6: "k", 0xf7: "k"},
    "m_op_32bytes": {**{o: "k" for o in range(0xc0, 0xe0)}, 0xf8: "k"},
    "exit_kernel": {0xf9: "k"},
    "m_op_general": {0xfb: "k", 0xfc: "k"},
    "pc_push0": {0x58: "uk", 0x5f: "uk"},
}
# operation classes of the arithmetic table
CLASSES = {"binary_op": {0x01, 0x02, 0x03, 0x04, 0x06, 0x10, 0x11, 0x1a}, "ternary_op": {0x08, 0x09, 0x0f},
           "fp254_op": {0x0c, 0x0d, 0x0e}, "shift": {0x1b, 0x1c}}


# ---------------------------------------------------------------- conditions
# z(f): f = 0; all/any/neg; evaluated symbolically (polynomials under a case) and concretely (rows)
def z(f):
    return ("z", f)


def eq(a, b):
    return ("z", padd(a, b if isinstance(b, dict) else pconst(b), -1))


def all_(*xs):
    return ("all", list(xs))


def any_(*xs):
    return ("any", list(xs))


def neg(x):
    return ("neg", x)


T, F = ("all", []), ("any", [])


def impl(a, b):
    return any_(neg(a), b)


def iff(a, b):
    return all_(impl(a, b), impl(b, a))


def sym(e, c):
    k = c[0]
    if k == "z":
        f = psub(c[1], e.sub)
        if field.isconst(f):
            return z3.BoolVal(not f)
        g, lo, hi = e.best(f)
        if (hi // P) + ((-lo) // P) <= 4:
            return e.eq0(f)
        return e.canon(f) == 0
    if k == "neg":
        return z3.Not(sym(e, c[1]))
    return (z3.And if k == "all" else z3.Or)(*[sym(e, x) for x in c[1]])


def conc(c, row):
    k = c[0]
    if k == "z":
        return peval(c[1], row) == 0
    if k == "neg":
        return not conc(c[1], row)
    return (all if k == "all" else any)(conc(x, row) for x in c[1])


class Case:
    """One operation in one mode. `fixed`: columns; `assume`: condition on the rows of the general split."""

    def __init__(self, name, flag, op, kernel, fixed):
        self.name, self.flag, self.op, self.kernel, self.fixed = name, flag, op, kernel, fixed


class Cpu(SCheck):
    def __init__(self, pid, tier):
        super().__init__(pid, tier)
        self.t = self.sys.table("cpu")
        self.n = self.t.n
        self.cm = dbg_cpu(self.sys)
        self.k = json.load(open(os.path.join(self.dir, "kernel.json")))
        self.labels = self.k["global_labels"]
        names = {x: i for x, i, _ in self.sys.info["segments"]}
        self.seg = names
        self.functions += ["cpu/*.rs eval_packed (all modules of CpuStark::eval_packed_generic), executed on a symbolic field",
                           "columns and filters of every cross-table lookup of the CPU table"]
        self.assumptions += ["stack words consist of 32-bit limbs", "the cross-table lookup argument is sound (LogUp soundness)",
                             "fewer than 2^32 rows"]
        self.ops = {k: v for k, v in self.cm["op"].items() if k != "_"}
        m = self.cm
        self.words = [[x for x in c["value"]] for c in m["mem_channels"]]
        self.stack_len = m["stack_len"]
        self.bnd = {}
        for w in self.words:
            for v in w:
                self.bnd[v] = self.bnd[v + self.n] = (0, W)
        for v in (m["context"], self.stack_len):
            self.bnd[v] = self.bnd[v + self.n] = (0, W)

    # -------------------------------------------------------------- columns
    def C(self, v):
        return {(v,): 1}

    def N(self, v):
        return {(v + self.n,): 1}

    def reg(self, name, nxt=False):
        return (self.N if nxt else self.C)(self.cm[name])

    def chan(self, i, nxt=False):
        c = self.cm["mem_channels"][i] if i != "p" else self.cm["partial_channel"]
        g = self.N if nxt else self.C
        return {"used": g(c["used"]), "acc": [g(c["is_read"]), g(c["addr_context"]), g(c["addr_segment"]), g(c["addr_virtual"])],
                "val": self.val(i, nxt) if i != "p" else self.val(0, nxt)}

    def val(self, i, nxt=False):
        return [(self.N if nxt else self.C)(v) for v in self.words[i]]

    def bit(self, i):
        return self.C(self.cm["opcode_bits"][i])

    def opcode_poly(self):
        f = {}
        for i, b in enumerate(self.cm["opcode_bits"]):
            f[(b,)] = 1 << i
        return f

    def lin(self, col, nxt=False):
        f = pconst(col["constant"])
        b = self.n if nxt else 0
        for v, c in col["linear_combination"]:
            f = padd(f, {(v + b,): c % P})
        for v, c in col["next_row_linear_combination"]:
            f = padd(f, {(v + self.n,): c % P})
        return f

    def filt(self, f, nxt=False):
        r = {}
        for a, b in f["products"]:
            r = padd(r, pmul(self.lin(a, nxt), self.lin(b, nxt)))
        for c in f["constants"]:
            r = padd(r, self.lin(c, nxt))
        return r

    # ---------------------------------------------------------------- cases
    def flags_fixed(self, flag):
        fx = {v: 0 for v in self.ops.values()}
        if flag:
            fx[self.ops[flag]] = 1
        return fx

    def mk(self, flag, op, kernel):
        fx = self.flags_fixed(flag)
        if op is not None:
            for i, b in enumerate(self.cm["opcode_bits"]):
                fx[b] = (op >> i) & 1
        fx[self.cm["is_kernel_mode"]] = kernel
        nm = f"{flag} {op:#04x}" if op is not None else str(flag)
        return Case(f"{nm} ({'kernel' if kernel else 'user'})", flag, op, kernel, fx)

    def cases(self):
        out = []
        for flag, ops_ in LEGAL.items():
            if flag not in self.ops:
                self.undecide(f"no flag {flag} in the CPU table")
                continue
            for o, modes in ops_.items():
                if "u" in modes:
                    out.append(self.mk(flag, o, 0))
                out.append(self.mk(flag, o, 1))
        for flag in ("syscall", "exception"):
            for k in (0, 1):
                out.append(self.mk(flag, None, k))
        out.append(self.mk(None, None, 1))
        return out

    def decide(self, case, goals, splits=({},), assume=T, first=0, last=0, alias=None, tag=""):
        """goals: [(name, condition)], proved for every accepted pair of rows of the case under each split (further
        fixed columns; the split None is the general one, under `assume`)."""
        for sp in splits:
            fx = dict(case.fixed)
            fx.update(sp or {})
            kw = dict(fixed=fx, bounds=self.bnd, first=first, last=last)
            if alias:
                kw["alias"] = alias
            a = assume if sp is None else T
            if sp is not None or not goals:
                a = T
            def one(gs):
                g = all_(*[c for _, c in gs])
                return lambda e: z3.Implies(sym(e, a), sym(e, g))
            try:
                e = self.enc("cpu", **kw)
            except Infeasible:
                self.infeasible = getattr(self, "infeasible", 0) + 1
                continue
            self.paths += 1
            g = one(goals)(e)
            r, m = self.prove(case.name, e, g)
            if r == "unsat":
                self.obligations += len(goals) - 1
                continue
            for nm, c in goals:
                def cc(lv, nv, c=c):
                    row = lv + nv
                    return any(not lo <= row[v] <= hi for v, (lo, hi) in self.bnd.items()) or not conc(a, row) or conc(c, row)
                self.ask_row(f"{case.name}: {nm}{tag}", "cpu", kw, one([(nm, c)]), cc, key=f"{self.opname(case)}: {nm}")

    def opname(self, case):
        return f"{case.flag} {case.op:#04x}" if case.op is not None else str(case.flag)

    # ------------------------------------------------------------- accesses
    def lookers(self, looked):
        c = next(c for c in self.sys.ctls if c["looked_table"]["table"] == looked)
        return [l for l in c["looking_tables"] if l["table"] == 2]

    def slots(self):
        """Memory lookups of the CPU by the slot of their timestamp (5 clock + slot - 4). Slot 1 (the channel that
        holds the top of the stack) is looked at in the next row: the instruction decides how it is used."""
        out = {}
        for l in self.lookers(6):
            ts = self.lin(l["columns"][12])
            k = padd(ts, pscale(self.reg("clock"), 5), -1)
            if not field.isconst(k):
                self.undecide("a memory lookup of the CPU has a timestamp of another form")
                continue
            s = (field.cent(field.cval(k)) + 4)
            out.setdefault(s, []).append(l)
        return out

    def stack_addr(self, i, ln=None):
        """(context, segment, virtual) of the i-th element below the top."""
        return [self.reg("context"), pconst(self.seg["Stack"]), padd(ln if ln is not None else self.reg("stack_len"), pconst(1 + i), -1)]

    def accesses(self, case):
        """Expected memory accesses of the row, per slot: (condition, [is_read, context, segment, virtual], value) -
        slot 1 is the top-of-stack channel of the next row."""
        f, o, k = case.flag, case.op, case.kernel
        sl, top, ntop = self.reg("stack_len"), self.val(0), self.val(0, True)
        one, zero = pconst(1), {}
        A = {}
        if f is not None:
            A[0] = (T, [one, self.reg("code_context"), pconst(self.seg["Code"]), self.reg("program_counter")],
                    ([self.opcode_poly()] + [zero] * 7))
        rd = lambda i: [one] + self.stack_addr(i)
        wr = lambda i: [zero] + self.stack_addr(i)
        nonempty = neg(z(sl))
        newtop = lambda pops: (neg(z(padd(sl, pconst(pops), -1))), [one] + self.stack_addr(0, padd(sl, pconst(pops), -1)), ntop)
        save = (nonempty, wr(0), top)
        c1, c2 = self.val(1), self.val(2)
        if f in ("binary_op", "logic_op", "fp254_op") or o == 0x14 or o == 0x21 or f == "m_op_32bytes":
            A[2] = (T, rd(1), c1)
        elif f == "ternary_op":
            A[2] = (T, rd(1), c1)
            A[3] = (T, rd(2), c2)
        elif f == "shift":
            A[2] = (T, rd(1), c1)
            A[3] = (all_(*[z(x) for x in top[1:]]), [one, zero, pconst(self.seg["ShiftTable"]), top[0]], c2)
        elif f in ("push_prover_input", "pc_push0", "syscall", "exception"):
            A[4] = save
        elif f == "dup_swap" and o < 0x90:
            A[2] = (T, wr(0), top)
            A[3] = (T, rd(o - 0x80), ntop)
        elif f == "dup_swap":
            A[2] = (T, rd(o - 0x90 + 1), ntop)
            A[3] = (T, wr(o - 0x90 + 1), top)
        elif o == 0xf6:
            A[3] = (nonempty, wr(0), top)
        elif o == 0xf7:
            nsl, nctx = self.reg("stack_len", True), self.reg("context", True)
            # the stack length of the old context is saved, that of the new one loaded, then its top of the stack
            A["old"] = (T, [zero, self.reg("context"), pconst(6), pconst(0xb)], None)
            A[3] = (neg(z(nsl)), [one, nctx, pconst(self.seg["Stack"]), padd(nsl, one, -1)], ntop)
        elif o == 0x50 or f == "exit_kernel":
            A[1] = newtop(1)
        elif o == 0x56:
            A[1] = newtop(1)
            A[3] = (T if not k else F, [one, self.reg("context"), pconst(self.seg["JumpdestBits"]), top[0]], [one])
        elif o == 0x57:
            A[1] = newtop(2)
            A[2] = (T, rd(1), c1)
            A[3] = (neg(all_(*[z(x) for x in c1])) if not k else F, [one, self.reg("context"), pconst(self.seg["JumpdestBits"]), top[0]], [one])
        elif o == 0xfb:
            A[2] = (T, [one, top[2], top[1], top[0]], ntop)
        elif o == 0xfc:
            A[1] = newtop(2)
            A[2] = (T, rd(1), c1)
            A[4] = (T, [zero, c1[2], c1[1], c1[0]], top)
        return A

    def access_goals(self, case):
        """The row's memory accesses are exactly the expected ones."""
        A = self.accesses(case)
        goals = []
        setctx = case.op == 0xf7
        sl = self.slots()
        for s in sorted(set(sl) | {x for x in A if isinstance(x, int)}):
            ls = sl.get(s, [])
            nm = {0: "code", 1: "next top of stack", 2: "channel 1", 3: "channel 2", 4: "partial channel"}.get(s, f"slot {s}")
            want = []
            if s in A:
                want.append(A[s])
            if setctx and s in (2, 3):
                ssz = pconst(self.seg_field("StackSize"))
                meta = pconst(self.seg["ContextMetadata"])
                v = [padd(self.reg("stack_len"), pconst(1), -1)] if s == 2 else [self.reg("stack_len", True)]
                want.append((T, [{} if s == 2 else pconst(1), self.reg("context") if s == 2 else self.reg("context", True), meta, ssz], v + [{}] * 7))
            if s not in sl and want:
                goals.append((f"{nm}: no such lookup", F))
                continue
            nx = s == 1 and case.flag is not None   # a padding row's own channel must be unused
            fs = [self.filt(l["filter"], nx) for l in ls]
            goals.append((f"{nm}: access counted once or not at all", all_(*[any_(z(x), eq(x, 1)) for x in fs])))
            tup = [[self.lin(x, nx) for x in l["columns"][:12]] for l in ls]

            def same(t, w):
                r = [eq(a, b) for a, b in zip(t[:4], w[1])]
                if w[2] is not None:
                    r += [eq(a, b) for a, b in zip(t[4:], w[2])]
                return all_(*r)
            # every counted access is expected, every expected access is counted; never two for one
            for i, t in enumerate(tup):
                goals.append((f"{nm}: every access is one of the instruction's", impl(neg(z(fs[i])), any_(*[all_(w[0], same(t, w)) for w in want]))))
            for w in want:
                goals.append((f"{nm}: the instruction's access is made", impl(w[0], any_(*[all_(neg(z(fs[i])), same(t, w)) for i, t in enumerate(tup)]))))
            if len(ls) > 1 and len(want) < 2:
                goals.append((f"{nm}: one access at a time", all_(*[any_(z(fs[i]), z(fs[j])) for i in range(len(ls)) for j in range(i)])))
        return goals

    def seg_field(self, name):
        return {"StackSize": 0xb}[name]

    def pops_pushes(self, case):
        f, o = case.flag, case.op
        return {"binary_op": (2, 1), "ternary_op": (3, 1), "fp254_op": (2, 1), "logic_op": (2, 1), "shift": (2, 1), "eq_iszero": (2, 1) if o == 0x14 else (1, 1),
                "not_pop": (1, 1) if o == 0x19 else (1, 0), "jumpdest_keccak_general": (0, 0) if o == 0x5b else (2, 1), "jumps": (1, 0) if o == 0x56 else (2, 0),
                "push_prover_input": (0, 1), "dup_swap": (0, 1) if o is not None and o < 0x90 else (0, 0), "context_op": (0, 1) if o == 0xf6 else (1, 0),
                "m_op_32bytes": (2, 1), "exit_kernel": (1, 0), "m_op_general": (1, 1) if o == 0xfb else (2, 0), "pc_push0": (0, 1),
                "syscall": (0, 1), "exception": (0, 1)}[f]

    def splits(self, case):
        """Stack lengths at which the instruction behaves differently, and the condition of the general split."""
        p, q = self.pops_pushes(case) if case.flag else (0, 0)
        col = self.stack_len
        if case.op == 0xf7:
            col += self.n
            vals = [0]
        elif case.flag is None:
            return [{}], T
        elif q == 0 and case.op not in (0x5b,) and not (case.op and 0x90 <= case.op < 0xa0):
            vals = [p]
        elif p == 0 and q == 1 and not (case.op and 0x80 <= case.op < 0x90):
            vals = [0]
        else:
            return [{}], T
        return [{col: v} for v in vals] + [None], all_(*[neg(z(padd({(col,): 1}, pconst(v), -1))) for v in vals])
