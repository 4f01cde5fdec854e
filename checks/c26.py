"""C26: memory continuation: MemBefore/MemAfter carry exactly the final values, and only pruned contexts are dropped."""
from mem import *


def run(tier):
    ch = SCheck("C26", tier)
    m = Mem(ch)
    n = m.t.n
    ctlb = next(c for c in ch.sys.ctls if c["looked_table"]["table"] == BEFORE)
    ctla = next(c for c in ch.sys.ctls if c["looked_table"]["table"] == AFTER)
    lb = [t for t in ctlb["looking_tables"]]
    la = [t for t in ctla["looking_tables"]]
    prune = [(c, t) for c in ch.sys.ctls for t in c["looking_tables"] if c["looked_table"]["table"] == 2 and t["table"] == MEM]
    stale = []
    for l in ch.sys.lookups("memory"):
        tc = simple(l["table_column"])
        if (tc is not None) and any(l["columns"] is not None and (c, f) in m.rc for c, f in zip(l["columns"], l["filter_columns"])):
            continue
        stale += [(tc, c, f) for c, f in zip(l["columns"], l["filter_columns"])]
    ch.functions += ["memory_stark.rs eval_packed_generic, executed on a symbolic field", "memory_continuation_stark.rs eval_packed_generic",
                     "ctl_mem_before, ctl_mem_after, ctl_context_pruning and their columns and filters", "MemoryStark::lookups"]
    shape = len(lb) == 1 and len(la) == 1 and lb[0]["table"] == MEM and la[0]["table"] == MEM and len(prune) == 1 and len(stale) == 1
    if not shape:
        ch.undecide("the cross-table lookups of MemBefore, MemAfter, pruned contexts or stale contexts have another shape")
        return ch.finish()
    lb, la, (pctl, pl), (scol, sval, sfilt) = lb[0], la[0], prune[0], stale[0]
    mcols = m.addr + m.vals

    def at(rows, cols, i):
        return [colval(c, rows[i], rows[i + 1] if i + 1 < len(rows) else rows[0]) for c in cols]

    # ---- the tuples
    def tuples(ch):
        for nm, look, tab in (("mem_before", lb, BEFORE), ("mem_after", la, AFTER)):
            def goal(c, e):
                return z3.And(*[e.eq0(field.padd(c.lin(e, a, 0), c.lin(e, b, 0), -1)) for a, b in zip(look["columns"], mcols)], z3.BoolVal(len(look["columns"]) == len(mcols)))

            def conc(rows):
                return at(rows, look["columns"], 0) == at(rows, mcols, 0)
            m.ask(f"the {nm} lookup exposes the row's own address and value", 2, goal, conc)
        # the continuation tables: boolean filter, the looked tuple and the memory operation agree
        for nm, tab, ctl in (("mem_before", BEFORE, ctlb), ("mem_after", AFTER, ctla)):
            lk = ctl["looked_table"]

            def goal(e):
                f = {}
                for a, b in lk["filter"]["products"]:
                    f = field.padd(f, field.pmul(e.lin(a), e.lin(b)))
                for x in lk["filter"]["constants"]:
                    f = field.padd(f, e.lin(x))
                v = e.canon(field.psub(f, e.sub))
                return z3.Or(v == 0, v == 1)
            ch.ask_row(f"{nm} rows are counted once or not at all", nm, {}, goal, lambda lv, nv: filtval(lk["filter"], lv, nv) in (0, 1))
            ops = [t for c in ch.sys.ctls if c["looked_table"]["table"] == MEM for t in c["looking_tables"] if t["table"] == tab]
            if tab == BEFORE:
                ok = len(ops) == 1
                if ok:
                    want = [0] + [simple(c) for c in lk["columns"]] + [0]
                    got = [simple(c) if c["linear_combination"] else c["constant"] for c in ops[0]["columns"]]
                    ok = got == want and ops[0]["filter"] == lk["filter"]
                if not ok:
                    # a row counted with the tuple of another operation
                    rows = [[1] + [7 + i for i in range(11)], [0] * 12]
                    ch.violation("MemBefore rows are not writes at time 0 of the memory table", {"table": nm, "rows": rows, "lookups": len(ops)})
            ch.paths += 1

    # ---- MemBefore: exactly the accesses at time 0
    def before(ch):
        def goal(c, e):
            f, t = e.canon(c.filt(e, lb["filter"], 0)), m.vv(c, e, m.ts, 0)
            return z3.Or(z3.And(f == 1, t == 0), z3.And(f == 0, t != 0))

        def conc(rows):
            return filtval(lb["filter"], rows[0], rows[1]) == int(colval(m.ts, rows[0], rows[0]) == 0)
        t0 = simple(m.ts)
        for fx in ({t0: 0}, {}):
            def g2(c, e, fx=fx):
                g = goal(c, e)
                return z3.Or(g, m.vv(c, e, m.ts, 0) == 0) if not fx else g
            m.ask("exactly the rows at time 0 come from MemBefore", 2, g2, conc, fixed=fx)
            ch.paths += 1

    # ---- stale contexts are contexts pruned by the CPU
    def pruned(ch):
        def goal(c, e):
            f, p = e.canon(c.filt(e, sfilt, 0)), e.canon(c.filt(e, pl["filter"], 0))
            own = e.eq0(field.padd(c.lin(e, sval, 0), field.padd(c.lin(e, m.ctx, 0), field.pconst(1)), -1))
            return z3.And(z3.Or(f == 0, f == 1), own, z3.Or(p == 0, p == 1))

        def conc(rows):
            return filtval(sfilt, rows[0], rows[1]) in (0, 1) and filtval(pl["filter"], rows[0], rows[1]) in (0, 1) and \
                colval(sval, rows[0], rows[1]) == (colval(m.ctx, rows[0], rows[0]) + 1) % P

        def goal2(c, e):
            p, s = e.canon(c.filt(e, pl["filter"], 0)), e.canon({(scol,): 1} if scol not in e.sub else e.sub[scol])
            own = e.eq0(field.padd(c.lin(e, pl["columns"][0], 0), field.padd({(scol,): 1}, field.pconst(1), -1), -1))
            return z3.And(z3.Or(s == 0, p == 1), own)

        def conc2(rows):
            s = rows[0][scol]
            return (s == 0 or filtval(pl["filter"], rows[0], rows[1]) == 1) and colval(pl["columns"][0], rows[0], rows[1]) == (s - 1) % P
        for last in (0, 1):
            m.ask("a row is stale at most once, by its own context" + (" (last row)" if last else ""), 2 - last, goal, pad(conc), last=last)
            m.ask("every stale context is one that the CPU pruned" + (" (last row)" if last else ""), 2 - last, goal2, pad(conc2), last=last)
            ch.paths += 2
        # the CPU side: boolean, own context
        lk = pctl["looked_table"]
        cm = ch.sys.info["column_maps"]["cpu"] if isinstance(ch.sys.info["column_maps"], dict) else None

        def cgoal(e):
            f = {}
            for a, b in lk["filter"]["products"]:
                f = field.padd(f, field.pmul(e.lin(a), e.lin(b)))
            for x in lk["filter"]["constants"]:
                f = field.padd(f, e.lin(x))
            v = e.canon(field.psub(f, e.sub))
            return z3.Or(v == 0, v == 1)
        vs = {v for a, b in lk["filter"]["products"] for c in (a, b) for v, _ in c["linear_combination"]} | {v for c in lk["filter"]["constants"] for v, _ in c["linear_combination"]}
        keep = vs
        ch.ask_row("a CPU row prunes at most one context, once", "cpu", dict(keep=keep, only=lambda i: ch.within("cpu", i, keep)), cgoal, lambda lv, nv: filtval(lk["filter"], lv, nv) in (0, 1))

    def pad(f):
        return lambda rows: f(rows if len(rows) > 1 else rows + [rows[0]])

    # ---- MemAfter: exactly the final values
    def expo(c, e, i):
        return e.canon(c.filt(e, la["filter"], i))

    def is_last(c, e, i, last):
        if last:
            return z3.BoolVal(True)
        a, b = ([m.vv(c, e, x, j) for x in m.addr] for j in (i, i + 1))
        return z3.Not(z3.And(*[x == y for x, y in zip(a, b)]))

    def shapes():
        # (chain length, first, last, index of the row b)
        return [("inner row", 3, 0, 0, 1), ("first row", 2, 1, 0, 0), ("last row", 2, 0, 1, 1)]

    def after_only(ch):
        for nm, k, fi, lst, b in shapes():
            def goal(c, e):
                x = expo(c, e, b)
                return z3.Or(x == 0, z3.And(x == 1, is_last(c, e, b, lst), e.canon(c.filt(e, sfilt, b)) != 1))

            def conc(rows):
                nx = rows[b + 1] if b + 1 < len(rows) else rows[0]
                x = filtval(la["filter"], rows[b], nx)
                same = not lst and at(rows, m.addr, b) == at(rows, m.addr, b + 1)
                return x == 0 or (x == 1 and not same and filtval(sfilt, rows[b], nx) != 1)
            m.ask(f"only final values of live contexts are handed on ({nm})", k, goal, conc, first=fi, last=lst)
            ch.paths += 1

    def used_goal(b, lst, s, used):
        def goal(c, e):
            u = used(c, e, b)
            zero = z3.And(*[m.vv(c, e, v, b) == 0 for v in m.vals])
            pre = [u, is_last(c, e, b, lst), e.canon(c.filt(e, sfilt, b)) == 0, m.vv(c, e, m.seg, b) == s]
            ok = expo(c, e, b) == 1
            if s not in m.pre:
                ok = z3.Or(ok, zero)
            return z3.Implies(z3.And(*pre), ok)
        return goal

    def used_conc(b, lst, s):
        def conc(rows):
            nx = rows[b + 1] if b + 1 < len(rows) else rows[0]
            used = filtval(m.looked.filter, rows[b], nx) == 1
            for j in range(max(b - 1, 0), b):
                if at(rows, m.addr, j) == at(rows, m.addr, b) and filtval(m.looked.filter, rows[j], rows[j]) == 1:
                    used = True
            final = lst or at(rows, m.addr, b) != at(rows, m.addr, b + 1)
            if not (used and final and filtval(sfilt, rows[b], nx) == 0 and colval(m.seg, rows[b], rows[b]) == s):
                return True
            return filtval(la["filter"], rows[b], nx) == 1 or (s not in m.pre and not any(at(rows, m.vals, b)))
        return conc

    def filt1(c, e, i):
        return e.canon(c.filt(e, m.looked.filter, i)) == 1

    def hist(c, e, i):
        """row i or an earlier row of the chain is an operation at row i's address"""
        o = [filt1(c, e, i)]
        for j in range(max(i - 1, 0), i):
            o.append(z3.And(filt1(c, e, j), *[m.vv(c, e, x, j) == m.vv(c, e, x, i) for x in m.addr]))
        return z3.Or(*o)

    seg = simple(m.seg)

    def exported(ch, segs):
        bad = False
        for s in segs:
            for nm, k, fi, lst, b in shapes():
                r = m.ask(f"the final value of an accessed address of segment {s} is handed on ({nm})", k, used_goal(b, lst, s, filt1), used_conc(b, lst, s),
                          first=fi, last=lst, fixed={b * n + seg: s}, key=f"handed on {nm}")
                bad |= r is False
                ch.paths += 1
        if bad:
            return
        # an invariant that remembers earlier operations at the same address
        cand = None
        for u in candidates(ch):
            ok = True
            for s in segs:
                for nm, k, fi, lst, b in shapes():
                    try:
                        c, e = m.chain(k, fi, lst, {b * n + seg: s})
                    except Infeasible:
                        continue
                    g = used_goal(b, lst, s, lambda c, e, i: e.value(i * n + u) == 1)(c, e)
                    if ch.prove(f"column {u} remembers operations: segment {s}, {nm}", e, g)[0] != "unsat":
                        ok = False
                        break
                if not ok:
                    break
            if ok:
                cand = u
                break
        ch.sample({"segments": [segs[0], segs[-1]], "column that remembers earlier operations at the address": cand})
        if cand is not None:
            ch.paths += 1
            return
        # none: operations followed by rows that are none
        for s in segs:
            for k, b, fi in ((3, 1, 1), (4, 2, 0)):
                r = m.ask(f"the final value of an address of segment {s} accessed one row earlier is handed on", k, used_goal(b, 0, s, hist), used_conc(b, 0, s),
                          first=fi, fixed={b * n + seg: s, (b - 1) * n + seg: s}, key="dropped after a dummy row", quiet=True)
                if r is False:
                    return
        ch.undecide("no column remembers earlier operations at the same address")

    def candidates(ch):
        out = []
        for u in range(n):
            good = True
            for k, fi, lst in ((2, 1, 0), (3, 0, 0), (2, 0, 1)):
                try:
                    c, e = m.chain(k, fi, lst)
                except Infeasible:
                    good = False
                    break
                if fi:
                    g = z3.Implies(filt1(c, e, 0), e.value(u) == 1)
                else:
                    same = z3.And(*[m.vv(c, e, x, 0) == m.vv(c, e, x, 1) for x in m.addr])
                    g = z3.And(z3.Implies(filt1(c, e, 1), e.value(n + u) == 1), z3.Implies(z3.And(same, e.value(u) == 1), e.value(n + u) == 1))
                if ch.prove("candidate invariant", e, g, timeout=10000)[0] != "unsat":
                    ch.obligations -= 1
                    good = False
                    break
            if good:
                out.append(u)
        return out

    k = 6
    ch.parallel([("tuples", tuples), ("before", before), ("pruned", pruned), ("only", after_only)] +
                [(f"exported {i}", lambda ch, i=i: exported(ch, m.segs[i::k])) for i in range(k)])
    ch.outside.append("that a pruned context is really dead (the kernel's business); the equality of the MemAfter and MemBefore Merkle caps of consecutive segments")
    return ch.finish()
