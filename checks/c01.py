"""C01: ADD, SUB, LT, GT, MUL rows of the arithmetic table."""
from arith import *


def run(tier):
    ch = Arith("C01", tier)
    ch.bound("every pair of rows over the Goldilocks field whose range-checked columns are below 2^16; no bound on operands")
    W = lambda e: [ch.word(e, w) for w in ch.words]

    def add(e):
        a, b, c, o = W(e)
        return [("sum", o == (a + b) % M256)]

    def sub(e):
        a, b, c, o = W(e)
        return [("difference", o == (a - b) % M256)]

    def lt(e):
        a, b, c, o = W(e)
        return [("less than", o == z3.If(a < b, 1, 0))]

    def gt(e):
        a, b, c, o = W(e)
        return [("greater than", o == z3.If(a > b, 1, 0))]

    def mul(e):
        return [("product", o_is_product(ch, e, ch.words[0], ch.words[1], ch.words[3]))]
    jobs = [(n, lambda ch, n=n, g=g: ch.op_case(n, g)) for n, g in (("ADD", add), ("SUB", sub), ("LT", lt), ("GT", gt), ("MUL", mul))]
    jobs += [("claims", lambda ch: ch.claim_case(["ADD", "SUB", "LT", "GT", "MUL"]))]
    ch.parallel(jobs)
    return ch.finish()


def o_is_product(ch, e, wa, wb, wo):
    """out = a*b mod 2^256, over the limb products"""
    pr = {}
    for fa, sa in ch.word_poly(e, wa):
        for fb, sb in ch.word_poly(e, wb):
            if sa + sb >= 256:
                continue
            for m, c in field.pmul(fa, fb).items():
                pr[m] = pr.get(m, 0) + (field.cent(c) << (sa + sb))
    t = z3.Sum([z3.IntVal(c) * e.atom(m) if m else z3.IntVal(c) for m, c in pr.items()])
    o = ch.word(e, wo)
    return (t - o) % M256 == 0
