"""C02: DIV, MOD, ADDMOD, MULMOD, SUBMOD and the BN254 field operations of the arithmetic table."""
from arith import *

OPS = ["DIV", "MOD", "ADDMOD", "MULMOD", "SUBMOD", "ADDFP254", "MULFP254", "SUBFP254"]


def wpoly(ch, e, w):
    r = {}
    for f, s in ch.word_poly(e, w):
        for m, c in f.items():
            r[m] = r.get(m, 0) + (field.cent(c) << s)
    return r


def iadd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
    return r


def imul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            r[k] = r.get(k, 0) + c * d
    return r


def iexpr(e, f):
    return z3.Sum([z3.IntVal(0)] + [z3.IntVal(c) * e.atom(m) if m else z3.IntVal(c) for m, c in f.items() if c])


def colpoly(e, v, k=1):
    return {m: field.cent(c) * k for m, c in e.lin({"constant": 0, "linear_combination": [(v, 1)], "next_row_linear_combination": []}).items()}


def quotient(ch, e, signed):
    """The quotient registers follow the output register."""
    base = max(v for c in ch.words[3] for v, _ in c["linear_combination"]) + 1
    q = {}
    for i in range(16 if signed else 32):
        q = iadd(q, colpoly(e, base + i, 1 << 16 * i))
        if signed:
            q = iadd(q, colpoly(e, base + 16, -65535 << 16 * i))
    return q


def aux0(ch, e):
    base = max(v for c in ch.words[3] for v, _ in c["linear_combination"]) + 1
    r = {}
    for i in range(16):
        r = iadd(r, colpoly(e, base + i, 1 << 16 * i))
    return r


def divmod_goals(ch, e, num, den, quo, rem, is_div):
    N, D, R = (iexpr(e, x) for x in (num, den, rem))
    nz = D != 0
    out = iexpr(e, quo if is_div else rem)
    return [("numerator = quotient * denominator + remainder", z3.Implies(nz, iexpr(e, iadd(iadd(num, rem, -1), imul(quo, den), -1)) == 0)),
            ("remainder below denominator", z3.Implies(nz, z3.And(R >= 0, R < D))),
            ("quotient is not negative", iexpr(e, quo) >= 0),
            ("zero denominator gives zero", z3.Implies(z3.Not(nz), out == 0))]


def goal(ch, op):
    def g(e):
        a, b, c, o = (wpoly(ch, e, w) for w in ch.words)
        if op == "DIV":
            return divmod_goals(ch, e, a, b, o, aux0(ch, e), True)
        if op == "MOD":
            return divmod_goals(ch, e, a, b, aux0(ch, e), o, False)
        res = iadd(a, b) if op.startswith("ADD") else iadd(a, b, -1) if op.startswith("SUB") else imul(a, b)
        q = quotient(ch, e, op.startswith("SUB"))
        M, O = iexpr(e, c), iexpr(e, o)
        gs = []
        if op.endswith("FP254"):
            gs.append(("modulus is the BN254 prime", M == BN))
            # the modulus columns are constants now
        nz = M != 0
        gs += [("result = quotient * modulus + output", z3.Implies(nz, iexpr(e, iadd(iadd(res, o, -1), imul(q, c), -1)) == 0)),
               ("output below modulus", z3.Implies(nz, z3.And(O >= 0, O < M))),
               ("zero modulus gives zero", z3.Implies(z3.Not(nz), O == 0))]
        return gs
    return g


def run(tier):
    ch = Arith("C02", tier)
    ch.bound("every pair of rows over the Goldilocks field whose range-checked columns are below 2^16; no bound on operands")
    ch.assumptions.append("uniqueness of the quotient and remainder of integer division")
    jobs = [(n, lambda ch, n=n: ch.op_case(n, goal(ch, n))) for n in OPS]
    jobs += [("claims", lambda ch: ch.claim_case(OPS))]
    ch.parallel(jobs)
    return ch.finish()
