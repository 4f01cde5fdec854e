"""C04: rows of the logic table."""
from stark import *

CODES = {"AND": 0x16, "OR": 0x17, "XOR": 0x18}
TRUTH = {"AND": lambda a, b: a & b, "OR": lambda a, b: a | b, "XOR": lambda a, b: a ^ b}


def claim(lk, e, code):
    return z3.And(e.canon(lk.filt(e)) != 0, e.canon(e.lin(lk.cols[0])) == code)


def limbs(lk, which):
    return lk.cols[1 + 8 * which: 9 + 8 * which]


def concrete(lk, op):
    def ok(lv, nv):
        if filtval(lk.filter, lv, nv) == 0 or colval(lk.cols[0], lv, nv) != CODES[op]:
            return True
        a, b, r = ([colval(c, lv, nv) for c in limbs(lk, i)] for i in range(3))
        return all(x < 1 << 32 and y < 1 << 32 and z == TRUTH[op](x, y) for x, y, z in zip(a, b, r))
    return ok


def bits_of(e, col):
    """Boolean columns of a limb by weight, if the limb is a sum of 32 booleans."""
    f = e.lin(col)
    out = {}
    for m, c in f.items():
        if len(m) != 1 or e.bounds(m[0]) != (0, 1) or c & (c - 1) or c in out:
            return None
        out[c] = m[0]
    return [out[1 << k] for k in range(32)] if len(out) == 32 and max(out) == 1 << 31 else None


def op_case(ch, lk, op):
    # the flags of a claiming row
    fl = sorted({v for c in lk.filter["constants"] for v, _ in c["linear_combination"]} | {v for v, _ in lk.cols[0]["linear_combination"]})
    e = ch.enc("logic", keep=fl, only=lambda i: ch.within("logic", i, set(fl)))
    pats = []
    s = z3.Solver()
    s.add(*e.out)
    s.add(claim(lk, e, CODES[op]))
    while len(pats) < 4 and ch.solve(s) == z3.sat:
        m = s.model()
        p = {v: m.eval(e.value(v), model_completion=True).as_long() for v in fl}
        pats.append(p)
        s.add(z3.Or(*[e.value(v) != x for v, x in p.items()]))
    ch.obligations += 1
    ch.sample({"op": op, "flags of claiming rows": pats})
    for p in pats:
        e = ch.enc("logic", fixed=p)
        for k in range(8):
            a, b, r = (limbs(lk, i)[k] for i in range(3))
            xs, ys = bits_of(e, a), bits_of(e, b)
            ok = False
            if xs and ys:
                f = field.psub({}, {})
                for i in range(32):
                    x, y = {(xs[i],): 1}, {(ys[i],): 1}
                    xy = field.pmul(x, y)
                    t = {"AND": xy, "OR": field.padd(field.padd(x, y), xy, -1), "XOR": field.padd(field.padd(x, y), xy, -2)}[op]
                    f = field.padd(f, t, 1 << i)
                g = z3.Not(z3.Not(e.eq0(field.padd(f, e.lin(r), -1))))
                res, _ = ch.prove(f"{op} limb {k}", e, g)
                ok = res == "unsat"
            if ok:
                continue
            if counterexample(ch, lk, op, p, k):
                return
            ch.undecide(f"{op}: limb {k} not proved and no wrong row found")
            return
    ch.paths += 1


def counterexample(ch, lk, op, flags, k):
    vals = [0, 1, 0xffffffff, 0x80000000, 0x12345678, 0xdeadbeef, 0x55555555, 0xaaaaaaaa, 2, 3]
    for i in range(24):
        x, y = (ch.rng.choice(vals), ch.rng.choice(vals)) if i < 12 else (ch.rng.getrandbits(32), ch.rng.getrandbits(32))
        if i == 0:
            x, y = 2, 0

        def goal(e):
            a, b, r = (e.canon(e.lin(limbs(lk, j)[k])) for j in range(3))
            return z3.Implies(z3.And(a == x, b == y), r == TRUTH[op](x, y))
        if ch.ask_row(f"{op}: limb {k} of a claimed row is wrong", "logic", dict(fixed=flags), goal, concrete(lk, op), key=f"{op}: limb {k}", quiet=True, timeout=10000) is False:
            return True
    return False


def run(tier):
    ch = SCheck("C04", tier)
    lk = Looked(ch, "logic")
    ch.bound("every row over the Goldilocks field; no bound on operands")
    ch.functions += ["logic.rs eval_packed_generic, executed on a symbolic field", "logic.rs ctl_data, ctl_filter"]
    ch.parallel([(op, lambda ch, op=op: op_case(ch, lk, op)) for op in CODES])
    return ch.finish()
