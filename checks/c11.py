"""C11: gas charged by native instructions."""
from cpu import *

BASE = {0x01: 3, 0x02: 5, 0x03: 3, 0x04: 5, 0x06: 5, 0x08: 8, 0x09: 8, 0x0f: 0, 0x0c: 0, 0x0d: 0, 0x0e: 0, 0x10: 3, 0x11: 3, 0x14: 3, 0x15: 3,
        0x16: 3, 0x17: 3, 0x18: 3, 0x19: 3, 0x1a: 3, 0x1b: 3, 0x1c: 3, 0x21: 0, 0x50: 2, 0x56: 8, 0x57: 10, 0x58: 2, 0x5b: 1, 0x5f: 2,
        0xee: 0, 0xf6: 0, 0xf7: 0, 0xf8: 0, 0xfb: 0, 0xfc: 0,
        **{o: 3 for o in range(0x60, 0xa0)}, **{o: 0 for o in range(0xc0, 0xe0)}}


def run(tier):
    ch = Cpu("C11", tier)
    gas, ngas = ch.reg("gas"), ch.reg("gas", True)
    top, ntop = ch.val(0), ch.val(0, True)

    def goal(case):
        if case.flag == "exit_kernel":
            return [("leaving the kernel restores the gas counter", all_(eq(ngas, top[6]), z(top[7])))]
        if case.flag in ("syscall", "exception"):
            return [("entering the kernel saves and resets the gas counter", all_(z(ngas), eq(ntop[6], gas), z(ntop[7])))]
        if case.flag is None:
            return []
        return [("gas", eq(ngas, padd(gas, pconst(BASE[case.op]))))]

    def job(cs):
        def go(ch):
            for case in cs:
                g = goal(case)
                if g:
                    ch.decide(case, g)
        return go
    cs = ch.cases()
    ch.parallel([(f"group {i}", job(cs[i::8])) for i in range(8)])
    ch.sample({"cases": len(cs)})
    ch.bound("every native opcode in both modes, syscalls, exceptions and EXIT_KERNEL; every value of the gas counter")
    ch.outside += ["gas of instructions that the kernel implements: C13-C16; the out-of-gas check of the user's gas limit is done by the kernel when it is entered"]
    return ch.finish()
