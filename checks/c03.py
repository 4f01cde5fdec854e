"""C03: BYTE, SHL and SHR rows of the arithmetic table, and the CPU rows that provide the shift factor."""
from c02 import *
from c01 import o_is_product


def byte_goal(ch, idx):
    """idx None: every index of 32 and more."""
    def g(e):
        a, b, _, o = (ch.word(e, w) for w in ch.words)
        if idx is None:
            return [("large index gives zero", z3.Implies(a >= 32, o == 0))]
        limb = e.canon(e.lin(ch.words[1][(31 - idx) // 4]))
        bs = [z3.Int(f"byte{i}") for i in range(4)]
        e.out.append(z3.And(*[z3.And(y >= 0, y < 256) for y in bs], limb == z3.Sum([y * 256 ** i for i, y in enumerate(bs)])))
        return [(f"byte {idx}", o == bs[(31 - idx) % 4])]
    return g


def byte_case(ch, idxs):
    for i in idxs:
        fx = {}
        if i is not None:
            ch.fix_word(fx, ch.words[0], i)
        ch.op_case("BYTE", byte_goal(ch, i), more=fx)


def shl_goal(ch):
    return lambda e: [("product", o_is_product(ch, e, ch.words[1], ch.words[2], ch.words[3]))]


def shr_goal(ch):
    def g(e):
        a, b, c, o = (wpoly(ch, e, w) for w in ch.words)
        return divmod_goals(ch, e, b, c, o, aux0(ch, e), True)
    return g


def cpu_case(ch):
    """The third operand of a shift row is the shift table's entry or, beyond 32 bits, zero."""
    cm = dbg_cpu(ch.sys)
    n = ch.sys.table("cpu").n
    bnd = {v: (0, 1) for v in ()}
    ch.assumptions.append("stack words consist of 32-bit limbs (their range checks are C12's concern)")
    for i in range(3):
        for v in cm["mem_channels"][i]["value"]:
            bnd[v] = (0, (1 << 32) - 1)
    fixed = {v: int(k == "shift") for k, v in cm["op"].items()}
    ch0, ch2 = cm["mem_channels"][0], cm["mem_channels"][2]
    keys = [*ch0["value"], *[x for k, v in ch2.items() if k != "_" for x in (v if isinstance(v, list) else [v])]]
    case = dict(fixed=fixed, bounds=bnd, keep=keys)
    seg = {x[0]: x[1] for x in ch.sys.info["segments"]}["ShiftTable"]

    def goal(e):
        v = e.value
        high0 = z3.And(*[v(x) == 0 for x in ch0["value"][1:]])
        return z3.If(high0, z3.And(v(ch2["used"]) == 1, v(ch2["is_read"]) == 1, v(ch2["addr_context"]) == 0, v(ch2["addr_segment"]) == seg,
                                   v(ch2["addr_virtual"]) == v(ch0["value"][0])),
                     z3.And(v(ch2["used"]) == 0, *[v(x) == 0 for x in ch2["value"]]))

    def conc(lv, nv):
        if any(lv[x] >= 1 << 32 for x in bnd):
            return True
        if all(lv[x] == 0 for x in ch0["value"][1:]):
            return (lv[ch2["used"]], lv[ch2["is_read"]], lv[ch2["addr_context"]], lv[ch2["addr_segment"]], lv[ch2["addr_virtual"]]) == (1, 1, 0, seg, lv[ch0["value"][0]])
        return lv[ch2["used"]] == 0 and all(lv[x] == 0 for x in ch2["value"])
    ch.ask_row("shift row: factor read from the shift table or zero", "cpu", case, goal, conc, key="cpu shift row")
    ch.paths += 1


def run(tier):
    ch = Arith("C03", tier)
    ch.bound("every pair of rows over the Goldilocks field whose range-checked columns are below 2^16; no bound on operands")
    ch.functions.append("cpu/shift.rs eval_packed")
    jobs = [("BYTE large", lambda ch: byte_case(ch, [None])), *[(f"BYTE {k}", lambda ch, k=k: byte_case(ch, range(k, k + 8))) for k in range(0, 32, 8)], ("SHL", lambda ch: ch.op_case("SHL", shl_goal(ch))),
            ("SHR", lambda ch: ch.op_case("SHR", shr_goal(ch))), ("claims", lambda ch: ch.claim_case(["BYTE", "SHL", "SHR"])),
            ("CPU", cpu_case)]
    ch.parallel(jobs)
    return ch.finish()
