"""C13: signed and emulated arithmetic system calls."""
from fw import *

B = z3.BitVecVal
ONE = B(1, 256)
MIN = 1 << 255


def neg(x):
    return -x


def isneg(x):
    return z3.Extract(255, 255, x) == 1


def absz(x):
    return z3.If(isneg(x), -x, x)


def sdiv_spec(a, b):
    q = bv(ops.div(absz(a), absz(b)))
    return z3.If(b == 0, B(0, 256), z3.If(isneg(a) != isneg(b), -q, q))


def smod_spec(a, b):
    r = bv(ops.mod(absz(a), absz(b)))
    return z3.If(b == 0, B(0, 256), z3.If(isneg(a), -r, r))


def sar_spec(s, x):
    return z3.If(z3.ULT(s, 256), x >> s, z3.If(isneg(x), B(M, 256), B(0, 256)))


def signext_spec(n, x):
    sh = B(248, 256) - (n << 3)
    return z3.If(z3.ULT(n, 31), (x << sh) >> sh, x)


SPECS = [
    ("SDIV", 0x05, sdiv_spec, 5),
    ("SMOD", 0x07, smod_spec, 5),
    ("SIGNEXTEND", 0x0b, signext_spec, 5),
    ("SLT", 0x12, lambda a, b: b2v(a < b), 3),
    ("SGT", 0x13, lambda a, b: b2v(a > b), 3),
    ("SAR", 0x1d, sar_spec, 3),
]


def run(tier):
    ch = KCheck("C13", tier)
    ch.functions = ["kernel bytecode reachable from the syscall jumptable entries of SDIV, SMOD, SIGNEXTEND, SLT, SGT, SAR (signed.asm, core/gas.asm, util/basic_macros.asm after macro and %stack expansion)"]
    ch.bound("all 256-bit operands, all 32-bit return pcs, gas used <= gas limit < 2^63")
    ch.assumptions = ["DIV and MOD are the EVM operations (uninterpreted here, decided by C02)", "div(x,0)=mod(x,0)=0"]

    def one(ch, name, op, spec, cost):
        y = Sys(ch, op, 2)
        if name in ("SDIV", "SMOD"):
            # the one fact about DIV/MOD needed
            f = uf("div", 2, UF_EVAL.get("div") or (lambda x, y: x // y if y else 0)) if name == "SDIV" else uf("mod", 2, UF_EVAL.get("mod") or (lambda x, y: x % y if y else 0))
            for s in (y.args[0], -y.args[0]):
                y.st.assume(f(s, B(0, 256)) == 0)
        want = spec(*y.args)
        ch.case(name, y.st, lambda fin: y.ok(fin, [want], cost), halts=y.halts(), validate=6)
    ch.parallel([(s[0], lambda ch, s=s: one(ch, *s)) for s in SPECS])
    return ch.finish()
