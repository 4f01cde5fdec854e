"""C12: what the CPU hands over to the other tables."""
from cpu import *

KINDS = {"binary_op": 0, "ternary_op": 2, "shift": 3, "fp254_op": 4}
CTL = {0: "arithmetic", 1: "byte packing", 4: "keccak sponge", 5: "logic"}



def calls(ch, case):
    """Expected lookups of a row: table -> tuple (columns beyond are free), plus relations that the row itself must
    satisfy for the tuple to mean the instruction."""
    f, o, k = case.flag, case.op, case.kernel
    top, c1, c2, ntop = ch.val(0), ch.val(1), ch.val(2), ch.val(0, True)
    opc = ch.opcode_poly()
    ts = padd(pscale(ch.reg("clock"), 5), pconst(-4 % P))
    one, zero = pconst(1), {}
    out, extra = {}, []
    if f in KINDS:
        out[0] = [opc] + top + c1 + (c2 if f in ("ternary_op", "shift") else [None] * 8) + ntop + [pconst(KINDS[f])]
    elif o == 0xee or f in ("syscall", "exception"):
        out[0] = [None] + [None] * 24 + ntop + [one]
    if f == "logic_op":
        out[5] = [opc] + top + c1 + ntop
    if o == 0x21:
        out[4] = [top[2], top[1], top[0], c1[0], ts] + ntop
    if o == 0xf8:
        out[1] = [one, top[2], top[1], top[0], c1[0], ts] + ntop
    elif f == "m_op_32bytes":
        n = o - 0xc0 + 1
        out[1] = [zero, top[2], top[1], top[0], pconst(n), ts] + c1
        extra.append(("MSTORE_32BYTES pushes the address after the bytes written",
                      all_(eq(ntop[0], padd(top[0], pconst(n))), eq(ntop[1], top[1]), eq(ntop[2], top[2]), *[z(x) for x in ntop[3:]])))
    elif f == "push_prover_input" and o != 0xee:
        out[1] = [one, ch.reg("code_context"), pconst(ch.seg["Code"]), padd(ch.reg("program_counter"), one), pconst(o - 0x60 + 1), ts] + ntop
    elif f in ("syscall", "exception"):
        a = ch.chan(1)["acc"]
        out[1] = [one] + a[1:] + [pconst(3), ts] + c1
    return out, extra


def goals_of(ch, case, want, extra):
    g = list(extra)
    for t, nm in CTL.items():
        ls = ch.lookers(t)
        fs = [ch.filt(l["filter"]) for l in ls]
        g.append((f"{nm}: lookups are counted once or not at all", all_(*[any_(z(x), eq(x, 1)) for x in fs])))
        w = want.get(t)
        if w is None:
            g.append((f"{nm}: no lookup", all_(*[z(x) for x in fs])))
            continue
        g.append((f"{nm}: one lookup", any_(*[all_(neg(z(x)), *[z(y) for y in fs[:i] + fs[i + 1:]]) for i, x in enumerate(fs)])))
        for l, x in zip(ls, fs):
            tup = [ch.lin(c) for c in l["columns"]]
            if len(tup) != len(w):
                ch.undecide(f"{nm}: tuples of {len(tup)} columns, expected {len(w)}")
                continue
            g.append((f"{nm}: operands, result and timestamp", impl(neg(z(x)), all_(*[eq(a, b) for a, b in zip(tup, w) if b is not None]))))
    # the contexts given up
    l = next(c for c in ch.sys.ctls if c["looked_table"]["table"] == 2)["looked_table"]
    x = ch.filt(l["filter"])
    g.append(("context pruning: boolean", any_(z(x), eq(x, 1))))
    if case.op != 0xf7:
        g.append(("context pruning: only by SET_CONTEXT", z(x)))
    else:
        g.append(("context pruning: the context that is left, if the argument says so",
                  impl(neg(z(x)), all_(eq(ch.lin(l["columns"][0]), ch.reg("context")), eq(ch.val(0)[0], 1)))))
        g.append(("context pruning: not skipped when asked for", impl(eq(ch.val(0)[0], 1), eq(x, 1))))
    return g


def run(tier):
    ch = Cpu("C12", tier)
    ch.functions += ["filters of the lookups of all other tables"]

    def job(cs):
        def go(ch):
            for case in cs:
                want, extra = calls(ch, case)
                if case.flag == "push_prover_input" and case.op != 0xee and case.kernel:
                    # the kernel's own PUSHes are not looked up: see the known findings
                    g = goals_of(ch, case, want, extra)
                    ask_push(ch, case, [x for x in g if x[0] == "byte packing: one lookup"])
                    del want[1]
                    g = goals_of(ch, case, want, extra)
                else:
                    g = goals_of(ch, case, want, extra)
                ch.decide(case, g)
        return go

    def ask_push(ch, case, goals):
        ch.decide(Case(case.name, "kernel PUSH", None, 1, case.fixed), goals)

    def filters(ch):
        """every lookup of the other tables is counted once or not at all"""
        all_l = [l for c in ch.sys.ctls for l in c["looking_tables"] + [c["looked_table"]] if l["table"] != 2]
        done = set()
        for l in all_l:
            key = (l["table"], json.dumps(l["filter"], sort_keys=True))
            if key not in done:
                done.add(key)
                one_filter(ch, ch.sys.NAMES[l["table"]], l, set().union(*[cols_of(x["filter"]) for x in all_l if x["table"] == l["table"]]))
    cs = ch.cases()
    ch.parallel([(f"group {i}", job(cs[i::15])) for i in range(15)] + [("filters", filters)])
    ch.sample({"cases": len(cs)})
    ch.bound("every native opcode in both modes, syscalls for every opcode byte, exceptions for every code, padding rows")
    ch.outside += ["what the other tables prove about the tuple: C01-C07, C26"]
    return ch.finish()


def cols_of(f):
    return {v for p in f["products"] for c in p for v, _ in c["linear_combination"]} | {v for c in f["constants"] for v, _ in c["linear_combination"]}


def one_filter(ch, nm, l, vs):
    f = l["filter"]
    if any(c["next_row_linear_combination"] for p in f["products"] for c in p) or any(c["next_row_linear_combination"] for c in f["constants"]):
        ch.undecide(f"{nm}: filter reads the next row")
        return
    if not cols_of(f):
        return

    def goal(e):
        x = {}
        for a, b in f["products"]:
            x = padd(x, pmul(e.lin(a), e.lin(b)))
        for c in f["constants"]:
            x = padd(x, e.lin(c))
        x = psub(x, e.sub)
        return sym(e, any_(("z", x), ("z", padd(x, pconst(1), -1))))
    ch.ask_row(f"{nm}: filter of a lookup is boolean", nm, dict(keep=sorted(vs), only=lambda i: ch.within(nm, i, vs)), goal,
               lambda lv, nv: filtval(f, lv, nv) in (0, 1), key=f"{nm} filter")
