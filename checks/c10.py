"""C10: stack effects and memory accesses of every CPU instruction."""
from cpu import *


def result_goals(ch, case):
    """Results that the CPU table itself decides."""
    f, o = case.flag, case.op
    top, ntop, c1 = ch.val(0), ch.val(0, True), ch.val(1)
    g = []
    if o == 0x14:
        same = all_(*[eq(a, b) for a, b in zip(top, c1)])
        g.append(("EQ result", all_(any_(all_(same, eq(ntop[0], 1)), all_(neg(same), z(ntop[0]))), *[z(x) for x in ntop[1:]])))
    elif o == 0x15:
        zero = all_(*[z(x) for x in top])
        g.append(("ISZERO result", all_(any_(all_(zero, eq(ntop[0], 1)), all_(neg(zero), z(ntop[0]))), *[z(x) for x in ntop[1:]])))
    elif o == 0x19:
        g.append(("NOT result", all_(*[eq(padd(a, b), W) for a, b in zip(top, ntop)])))
    elif o == 0x58:
        g.append(("PC result", all_(eq(ntop[0], ch.reg("program_counter")), *[z(x) for x in ntop[1:]])))
    elif o == 0x5f:
        g.append(("PUSH0 result", all_(*[z(x) for x in ntop])))
    elif o == 0x5b:
        g.append(("JUMPDEST leaves the top of the stack", all_(*[eq(a, b) for a, b in zip(top, ntop)])))
    elif f == "m_op_32bytes" and o < 0xe0:
        g.append(("MSTORE_32BYTES result", all_(eq(ntop[0], padd(top[0], pconst(o - 0xc0 + 1))), eq(ntop[1], top[1]), eq(ntop[2], top[2]), *[z(x) for x in ntop[3:]])))
    elif o == 0xf6:
        g.append(("GET_CONTEXT result", all_(eq(ntop[2], ch.reg("context")), *[z(x) for i, x in enumerate(ntop) if i != 2])))
    return g


def run(tier):
    ch = Cpu("C10", tier)

    def job(cs):
        def go(ch):
            for case in cs:
                goals = ch.access_goals(case)
                sl, nsl = ch.reg("stack_len"), ch.reg("stack_len", True)
                if case.flag:
                    p, q = ch.pops_pushes(case)
                    if case.op != 0xf7:
                        goals.append(("stack length", eq(nsl, padd(sl, pconst((q - p) % P)))))
                    goals += result_goals(ch, case)
                    if not case.kernel and (q > p and case.flag in ("push_prover_input", "pc_push0", "dup_swap")):
                        ch.decide(case, [("user stack stays within 1024", F)], [{ch.stack_len: 1024, ch.stack_len + ch.n: 1025, ch.cm["is_kernel_mode"] + ch.n: 0}])
                sp, a = ch.splits(case)
                if case.op == 0x14:
                    al = {x: {(y,): 1} for x, y in zip(ch.words[1], ch.words[0])}
                    ch.decide(case, goals, alias=al, tag=" (equal operands)")
                    sp, a = [None], neg(all_(*[eq(ch.C(x), ch.C(y)) for x, y in zip(ch.words[1], ch.words[0])]))
                ch.decide(case, goals, sp, a)
        return go
    cs = ch.cases()
    ch.parallel([(f"group {i}", job(cs[i::24])) for i in range(24)])
    ch.sample({"cases": len(cs), "opcodes": sum(len(v) for v in LEGAL.values())})
    ch.bound("every native opcode in both modes, syscalls and exceptions for every opcode byte and exception code, padding rows; every stack length below 2^32")
    return ch.finish()
