"""C09: control flow and privilege of the CPU table."""
from cpu import *


def goals_of(ch, case):
    f, o, k = case.flag, case.op, case.kernel
    pc, npc = ch.reg("program_counter"), ch.reg("program_counter", True)
    ker, nker = ch.reg("is_kernel_mode"), ch.reg("is_kernel_mode", True)
    ctx, nctx = ch.reg("context"), ch.reg("context", True)
    top, ntop, c1 = ch.val(0), ch.val(0, True), ch.val(1)
    L = ch.labels
    g = [("clock", eq(ch.reg("clock", True), padd(ch.reg("clock"), pconst(1)))),
         ("code is read from the own context in user mode and from context 0 in kernel mode",
          z(ch.reg("code_context")) if k else eq(ch.reg("code_context"), ctx))]
    step = eq(npc, padd(pc, pconst(1)))
    if f is None:
        nx = {}
        for v in ch.ops.values():
            nx = padd(nx, ch.N(v))
        g.append(("padding rows are in kernel mode", eq(ker, 1)))
        g.append(("padding starts only at halt_final", eq(pc, L["halt_final"])))
        g.append(("padding rows are followed by padding rows", z(nx)))
        return g
    if o == 0xf7:
        g.append(("SET_CONTEXT switches to the popped context", all_(eq(nctx, top[2]), *[z(top[i]) for i in range(1, 8) if i != 2])))
    else:
        g.append(("context is kept", eq(nctx, ctx)))
    if f in ("syscall", "exception"):
        g.append(("kernel mode", eq(nker, 1)))
        g.append(("handler address", all_(eq(npc, c1[0]), *[z(x) for x in c1[1:]])))
        if f == "syscall":
            code = padd(pconst(L["syscall_jumptable"]), pscale(ch.opcode_poly(), 3))
            g.append(("saved program counter and mode", all_(eq(ntop[0], padd(pc, pconst(1))), eq(ntop[1], ker))))
        else:
            bits = [ch.C(v) for v in ch.cm["general"][:3]]
            ex = {}
            for i, b in enumerate(bits):
                ex = padd(ex, b, 1 << i)
                g.append((f"exception code bit {i}", any_(z(b), eq(b, 1))))
            code = padd(pconst(L["exception_jumptable"]), pscale(ex, 3))
            if k:
                g.append(("the kernel raises no exception but exc_stop", eq(ex, 6)))
            g.append(("saved program counter and mode", all_(eq(ntop[0], pc), any_(z(ntop[1]), eq(ex, 6)))))
        g.append(("rest of the saved word", all_(*[z(x) for x in ntop[2:6]], eq(ntop[6], ch.reg("gas")), z(ntop[7]))))
        # the three bytes of the jump table entry
        want = [pconst(1), {}, pconst(ch.seg["Code"]), code, pconst(3), padd(pscale(ch.reg("clock"), 5), pconst(-4 % P))] + c1
        opts = []
        for l in ch.lookers(1):
            opts.append(all_(eq(ch.filt(l["filter"]), 1), *[eq(ch.lin(a), b) for a, b in zip(l["columns"], want)]))
        g.append(("handler is read from the jump table", any_(*opts)))
    elif f == "exit_kernel":
        g.append(("restored program counter and mode", all_(eq(npc, top[0]), eq(nker, top[1]), z(top[7]))))
    else:
        g.append(("mode is kept", eq(nker, ker)))
        if f == "jumps":
            if not k:
                g += [(f"valid jump destination: {nm}", x) for nm, x in ch.access_goals(case) if nm.startswith("channel 2")]
            jump = all_(eq(npc, top[0]), *[z(x) for x in top[1:]])
            if o == 0x56:
                g.append(("JUMP target", jump))
            else:
                zero = all_(*[z(x) for x in c1])
                g.append(("JUMPI target", any_(all_(zero, step), all_(neg(zero), jump))))
        elif f == "push_prover_input" and o != 0xee:
            g.append(("PUSH skips its data", eq(npc, padd(pc, pconst(2 + o - 0x60)))))
        else:
            g.append(("next instruction", step))
    return g


def run(tier):
    ch = Cpu("C09", tier)

    def job(cs):
        def go(ch):
            for case in cs:
                ch.decide(case, goals_of(ch, case))
        return go

    def ends(ch):
        e = lambda nm, g: [(nm, g)]
        # the first row: the entry point of the kernel; nothing precedes it that could constrain its top-of-stack read
        used = ch.chan(0)["used"]
        first = all_(eq(ch.reg("program_counter"), ch.labels["init"]), eq(ch.reg("is_kernel_mode"), 1), eq(ch.reg("clock"), 1))
        for flag in list(ch.ops) + [None]:
            for k in (0, 1):
                fx = ch.flags_fixed(flag)
                fx[ch.cm["is_kernel_mode"]] = k
                case = Case(f"first row, {flag} ({'kernel' if k else 'user'})", flag, None, k, fx)
                ch.decide(case, [("a segment starts at init in kernel mode with clock 1", first), ("the first row reads no top of the stack", z(used))], first=1)
            fx = ch.flags_fixed(flag)
            if flag is not None:
                ch.decide(Case(f"last row, {flag}", flag, None, None, fx), [("the last row is padding", F)], last=1)
    cs = ch.cases()
    ch.parallel([(f"group {i}", job(cs[i::15])) for i in range(15)] + [("first and last row", ends)])
    ch.sample({"cases": len(cs)})
    ch.bound("every native opcode in both modes, syscalls for every opcode byte, exceptions for every code, padding, first and last row; no bound on registers but 32-bit stack limbs")
    ch.outside += ["contents of the stack at the first row: checked by the kernel's init code against the public registers"]
    ch.outside += ["that the valid jump destinations are marked only where they should be: kernel (C20)"]
    return ch.finish()
