"""C14: EXP."""
from fw import *


def run(tier):
    ch = KCheck("C14", tier)
    ch.functions = ["sys_exp and exp (exp.asm), gas charging (core/gas.asm)"]
    ch.bound("result: every 256-bit base; exponents 0..%d, all 2^k, 2^k-1, 2^k+1 for k<=256 in steps, plus an inductive step over all bases and exponents" % (255 if ch.thorough else 40))
    ch.bound("gas: all exponents; gas used <= gas limit < 2^32")
    ch.assumptions = ["MUL is multiplication modulo 2^256 (C01)"]

    def full(ch, es):
        for e in es:
            y = Sys(ch, 0x0a, 2)
            y.replace_args([y.args[0], e])
            nb = (e.bit_length() + 7) // 8
            want = POW(y.args[0], z3.BitVecVal(e, 256)) if e > 1 else [1, y.args[0]][e]
            ch.case(f"EXP e={e:#x}", y.st, lambda fin: y.ok(fin, [want], 10 + 50 * nb), halts=y.halts(), validate=1 if e in (0, 5, 37) else 0)

    def gas(ch):
        y = Sys(ch, 0x0a, 2)
        e = y.args[1]
        cost = z3.BitVecVal(10, 256)
        for i in range(32):
            cost = z3.If(z3.UGE(e, 1 << (8 * i)), z3.BitVecVal(60 + 50 * i, 256), cost)
        used = z3.ZeroExt(192, y.gas_used)
        oog = z3.UGT(used + cost, y.gas_limit)

        # fast: cut at the recursive entry, whose first visit follows the gas charge
        ent = ch.k.labels.get("exp")

        def ob(fin):
            if fin.status == "fault":
                return [("faults only when out of gas", oog)]
            if fin.status == "charged":
                ks = [v for v in fin.stack[2:-2]]
                return [("charges the exact gas or faults", z3.And(z3.Not(oog), z3.Or(*[bv(v) == y.kexit + (cost << 192) for v in ks])))]
            return [("terminates normally", False)]

        def cut():
            E = Exec(ch.k, halts=y.halts(exp="charged"))
            done = E.run(y.st.clone())
            for st in done:
                for n, c in ob(ch.final(st, y.st)):
                    ch.obligations += 1
                    if isinstance(c, bool) or ch.query(st, z3.Not(c), 60000)[0] != "unsat":
                        return False
            ch.account(E)
            return True
        if ent is not None and cut():
            y.ch.sample({"case": "EXP gas", "cut": "exp"})
            return
        # slow: the whole instruction
        def full_ob(fin):
            o = y.ok(fin, [0], cost, outgas=oog)
            return [(n, c) for n, c in o if not n.startswith("stack[2]")]
        ch.case("EXP gas", y.st, full_ob, halts=y.halts(), validate=4)

    def induct(ch):
        """exp(x, e) = [e odd ? x : 1] * exp(x^2, e/2), exp(x, 0) = 1, from the recursive entry."""
        ent = ch.k.labels.get("exp")
        if ent is None:
            ch.outside.append("inductive step: no recursive entry `exp`")
            return
        st = State()
        st.pc, st.ctx = ent, 1
        x, e, s0 = (z3.BitVec(n, 256) for n in ("x", "e", "s0"))
        ret = ch.k.label("halt") if "halt" in ch.k.labels else ch.k.label("panic")
        st.stack = [s0, ret, e, x]
        first = [True]

        class H:
            pass

        def hook(E, s):
            if s.nst == 0:
                return None
            # a recursive call: replace it by its value
            a, b, r = s.stack[-1], s.stack[-2], s.stack[-3]
            if not isint(r):
                return None
            s.stack[-3:] = [POW(bv(a), bv(b))]
            s.notes["rec"] = s.notes.get("rec", ()) + ((a, b),)
            s.pc = r
            return None
        E = Exec(ch.k, halts={ret: "ret"}, hooks={ent: hook})
        done = E.run(st)
        ch.account(E)
        for t in done:
            if t.status == "panic" or t.status != "ret" or len(t.stack) != 2:
                ch.outside.append(f"inductive step not applicable (ends {t.status})")
                return
            rec = t.notes.get("rec", ())
            if len(rec) > 1:
                ch.outside.append("inductive step not applicable (several recursive calls)")
                return
            if rec:
                h = bv(rec[0][0])
                p = POW(h, bv(rec[0][1]))
                goal = z3.And(h == POW(x, z3.BitVecVal(2, 256)), bv(rec[0][1]) == z3.LShR(e, 1),
                              bv(t.stack[1]) == z3.If(z3.Extract(0, 0, e) == 1, bv(ops.mul(x, p)), p), e != 0)
            else:
                goal = z3.And(e == 0, bv(t.stack[1]) == 1)
            ch.obligations += 1
            r, env = ch.query(t, z3.Not(z3.And(goal, bv(t.stack[0]) == s0)), 60000)
            if r == "unsat":
                continue
            if r == "sat":
                xv, ev = env.get("x", 0), env.get("e", 0)
                bad, case, fin, rr = ch.confirm("exp", st, {ret: "ret"}, True, lambda f: [("exp result", f.stack[-1] == pow(xv, ev, 1 << 256) and len(f.stack) == 2)], env, [], [])
                if bad:
                    ch.violation("EXP: exp(x, e) is not x^e", {"case": case, "x": hex(xv), "e": hex(ev), "real": rr})
                    continue
            ch.outside.append(f"inductive step not decided ({r})")
    es = list(range(256 if ch.thorough else 41))
    es += [2 ** k for k in range(8, 256)]
    for k in range(8, 257, 1 if ch.thorough else 31):
        es += [2 ** k - 1] + ([2 ** k, 2 ** k + 1] if k < 256 else [])
    jobs = [("EXP gas", gas), ("EXP induction", induct)] + [(f"EXP {i}", lambda ch, i=i: full(ch, es[i::6])) for i in range(6)]
    ch.parallel(jobs)
    return ch.finish()
