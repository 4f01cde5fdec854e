"""C08: decoding of the CPU table."""
from cpu import *
from arith import Arith, truth
import arith


def run(tier):
    ch = Cpu("C08", tier)
    cm = ch.cm
    bits = cm["opcode_bits"]
    small = set(ch.ops.values()) | set(bits) | {cm["is_kernel_mode"]}
    OPC = {v: k for k, v in arith.OPCODES.items()}

    def exclusive(ch):
        cols = sorted(small)
        one = lambda v: any_(z(ch.C(v)), eq(ch.C(v), 1))
        goals = [(f"{nm} is boolean", one(v)) for nm, v in ch.ops.items()] + [(f"opcode bit {i} is boolean", one(v)) for i, v in enumerate(bits)] \
            + [("the kernel flag is boolean", one(cm["is_kernel_mode"]))]
        for nm, g in goals:
            ch.ask_row(f"decoding: {nm}", "cpu", dict(keep=cols, only=lambda i: ch.within("cpu", i, small | set(range(ch.n, 2 * ch.n)))),
                       lambda e: sym(e, g), lambda lv, nv: conc(g, lv + nv))
        names = list(ch.ops)
        for i, a in enumerate(names):
            g = any_(neg(eq(ch.C(ch.ops[a]), 1)), all_(*[z(ch.C(ch.ops[b])) for b in names if b != a]))
            ch.ask_row(f"decoding: {a} excludes the other flags", "cpu", dict(fixed={ch.ops[a]: 1}, keep=cols),
                       lambda e: sym(e, g), lambda lv, nv: conc(g, lv + nv))

    def value(f, e):
        """constant of a column under a case, or None"""
        f = psub(f, e.sub)
        return field.cval(f) if field.isconst(f) else None

    def flags(ch):
        ar = ch.lookers(0)
        lo = ch.lookers(5)
        for flag in ch.ops:
            for k in (0, 1):
                fx = ch.flags_fixed(flag)
                fx[cm["is_kernel_mode"]] = k
                legal = [o for o, m in LEGAL.get(flag, {}).items() if k or "u" in m]
                if flag in ("syscall", "exception"):
                    continue
                opc = ch.opcode_poly()
                g = any_(*[eq(opc, o) for o in legal])
                nm = f"{flag} ({'kernel' if k else 'user'}): opcode"
                case = dict(fixed=fx, keep=bits, bounds=ch.bnd)
                if flag not in CLASSES and flag != "logic_op":
                    ch.ask_row(nm, "cpu", case, lambda e: sym(e, g), lambda lv, nv: conc(g, lv + nv), key=flag)
                    continue
                # the table that proves the operation restricts the opcode further
                try:
                    e = ch.enc("cpu", **case)
                except Infeasible:
                    continue
                lk = lo if flag == "logic_op" else ar
                tab = "logic" if flag == "logic_op" else "arithmetic"
                calls = [l for l in lk if value(ch.filt(l["filter"]), e) != 0]
                if len(calls) != 1 or value(ch.filt(calls[0]["filter"]), e) != 1:
                    ch.undecide(f"{nm}: the row is not looked up exactly once")
                    continue
                extra = [value(ch.lin(c), e) for c in calls[0]["columns"][33:]] if tab == "arithmetic" else []
                if None in extra:
                    ch.undecide(f"{nm}: kind of operation is not constant")
                    continue
                x = Looked(ch, tab)
                fl = {v for c in x.filter["constants"] for v, _ in c["linear_combination"]} | {v for c in [x.cols[0]] + x.cols[33:] for v, _ in c["linear_combination"]} \
                    if tab == "arithmetic" else {v for c in x.filter["constants"] + [x.cols[0]] for v, _ in c["linear_combination"]}
                t = ch.enc(tab, keep=sorted(fl), only=lambda i: ch.within(tab, i, fl))
                # opcodes that both sides accept
                o = t.canon(t.lin(x.cols[0]))
                claim = [t.canon(x.filt(t)) != 0] + [t.canon(t.lin(c)) == v for c, v in zip(x.cols[33:], extra)]
                ob = z3.Sum([e.value(b) * (1 << i) for i, b in enumerate(bits)])
                s = both(t, e, claim, o, ob, legal)
                r = ch.solve(s)
                ch.obligations += 1
                if r == z3.sat:
                    pair(ch, nm, flag, k, tab, x, extra, s.model().eval(z3.Int("the_opcode"), model_completion=True).as_long(), fx)
                elif r != z3.unsat:
                    ch.undecide(f"{nm}: {r}")

    def both(t, e, claim, o, ob, legal):
        """Conjunction of both tables; the columns of the looked table get names of their own."""
        s = z3.Solver()
        s.set("timeout", 60000)
        xs = list(t.out) + claim + [o == z3.Int("the_opcode")]
        vs = set()

        def walk(q):
            if z3.is_const(q) and q.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                vs.add(q)
            for c in q.children():
                walk(c)
        for q in xs:
            walk(q)
        subs = [(v, z3.Const("t_" + str(v), v.sort())) for v in vs if str(v) != "the_opcode"]
        for q in xs:
            s.add(z3.substitute(q, *subs))
        s.add(*e.out)
        s.add(ob == z3.Int("the_opcode"))
        s.add(*[z3.Int("the_opcode") != l for l in legal])
        return s

    def pair(ch, nm, flag, k, tab, x, extra, bad, fx):
        """A CPU row and a row of the other table that agree on the tuple, both accepted by the real constraints."""
        for ops_ in ((0, 0, 0), (7, 3, 5), (1, 2, 2)):
            tx = {}
            for i, w in enumerate(ops_):
                for j, c in enumerate(x.cols[1 + 8 * i:9 + 8 * i]):
                    lc = sorted(c["linear_combination"], key=lambda q: q[1])
                    if len(lc) == 2 and lc[0][1] == 1:
                        v = (w >> 32 * j) & W
                        tx[lc[0][0]], tx[lc[1][0]] = v & 0xffff, v >> 16
            try:
                t = Enc(ch.sys.table(tab), fixed=tx, mul_atoms=False)
                s = t.solver(20000)
                s.add(t.canon(x.filt(t)) != 0, t.canon(t.lin(x.cols[0])) == bad, *[t.canon(t.lin(c)) == v for c, v in zip(x.cols[33:], extra)])
                s.add(*t.out)
                if ch.solve(s) != z3.sat:
                    continue
                a, b = t.row(s.model())
                tup = [colval(c, a, b) for c in x.cols]
                f2 = dict(fx)
                for i, bb in enumerate(bits):
                    f2[bb] = (bad >> i) & 1
                words = [ch.words[0], ch.words[1], ch.words[2], [v + ch.n for v in ch.words[0]]]
                if tab == "logic":
                    words = [ch.words[0], ch.words[1], [v + ch.n for v in ch.words[0]]]
                for i, w in enumerate(words):
                    for j, v in enumerate(w):
                        f2[v] = tup[1 + 8 * i + j]
                e = Enc(ch.sys.table("cpu"), fixed=f2, bounds=ch.bnd)
                s = e.solver(20000)
                s.add(*e.out)
                if ch.solve(s) != z3.sat:
                    continue
                lv, nv = e.row(s.model())
            except Infeasible:
                continue
            if ch.replay("cpu", lv, nv) and ch.replay(tab, a, b):
                ch.violation(f"{nm} {bad:#04x} is accepted", {"table": "cpu", "lv": lv, "nv": nv, "looked": {"table": tab, "lv": a, "nv": b}}, key=flag)
                return
        ch.undecide(f"{nm}: opcode {bad:#04x} is not excluded, but no pair of rows was found")

    def jumptable(ch):
        """Entries of the kernel's jump tables: a system call exists only for opcodes that the kernel implements."""
        code = bytes.fromhex(ch.k["code"]) if isinstance(ch.k["code"], str) else bytes(ch.k["code"])
        at = lambda p: int.from_bytes(code[p:p + 3], "big")
        L = ch.labels
        native = {o for f, m in LEGAL.items() for o, u in m.items() if "u" in u}
        defined = set(range(0x00, 0x0c)) | set(range(0x10, 0x1e)) | {0x20} | set(range(0x30, 0x4b)) | set(range(0x50, 0xa5)) | {0xf0, 0xf1, 0xf2, 0xf3, 0xf4, 0xf5, 0xfa, 0xfd, 0xfe, 0xff}
        table = [at(L["syscall_jumptable"] + 3 * o) for o in range(256)]
        s = z3.Solver()
        o, tgt = z3.Int("opcode"), z3.Function("handler", z3.IntSort(), z3.IntSort())
        s.add(0 <= o, o < 256, *[tgt(i) == v for i, v in enumerate(table)])
        nosys = z3.Or(*[o == i for i in range(256) if i in native or i not in defined])
        s.add(nosys, tgt(o) != L["panic"])
        ch.obligations += 1
        while ch.solve(s) == z3.sat:
            i = s.model()[o].as_long()
            ch.violation(f"a system call with opcode {i:#04x}, which is native or undefined, does not panic", {"opcode": i, "handler": table[i]}, key=f"syscall {i:#04x}")
            s.add(o != i)
        ch.sample({"system calls": sum(1 for v in table if v != L["panic"])})

    def executable(cs):
        def go(ch):
            for case in cs:
                fx = dict(case.fixed)
                fx[ch.stack_len + (ch.n if case.flag == "context_op" else 0)] = 5
                kw = dict(fixed=fx if case.flag else case.fixed, bounds=ch.bnd)
                try:
                    e = ch.enc("cpu", **kw)
                    r, m = ch.prove(case.name, e, z3.BoolVal(False))
                except Infeasible:
                    r, m = "unsat", None
                if r == "unsat":
                    ch.violation(f"{case.name} can never be executed", {"table": "cpu", "fixed": fx}, key=f"{ch.opname(case)} executable")
                    continue
                for lv, nv in ch.candidates("cpu", kw, lambda e: z3.BoolVal(False), e, m):
                    if ch.replay("cpu", lv, nv):
                        ch.validated += 1
                        break
        return go
    cs = ch.cases()
    ch.parallel([(f"instructions {i}", executable(cs[i::7])) for i in range(7)] + [("exclusive flags", exclusive), ("opcodes per flag", flags), ("jump table", jumptable)])
    ch.sample({"flags": len(ch.ops)})
    ch.bound("every opcode byte, both modes, every flag")
    ch.outside += ["that an exception is due when it is raised: kernel (C17)"]
    return ch.finish()
