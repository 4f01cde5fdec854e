"""C06: the memory table: ordering, read consistency, zero initialisation."""
from mem import *


def run(tier):
    ch = SCheck("C06", tier)
    m = Mem(ch)
    ch.functions += ["memory_stark.rs eval_packed_generic, executed on a symbolic field", "MemoryStark::lookups, memory_stark::ctl_data, ctl_filter"]
    n = m.t.n

    def at(rows, cols, i):
        return [colval(c, rows[i], rows[i]) for c in cols]

    def order(ch):
        def goal(c, e):
            a, b = ([m.vv(c, e, x, i) for x in m.key] for i in (0, 1))
            d = [dist(x, y) for x, y in zip(a, b)]
            eq = [x == y for x, y in zip(a, b)]
            up = lambda x: z3.And(x >= 1, x <= B)
            return z3.Or(up(d[0]), z3.And(eq[0], up(d[1])), z3.And(*eq[:2], up(d[2])), z3.And(*eq[:3], d[3] < B))

        def conc(rows):
            a, b = (at(rows, m.key, i) for i in (0, 1))
            d = [(y - x) % P for x, y in zip(a, b)]
            for j in range(3):
                if d[j]:
                    return d[j] <= B
            return d[3] < B
        m.ask("rows are ordered by context, segment, address and time", 2, goal, conc)

        def goal2(c, e):
            a, b = ([m.vv(c, e, x, i) for x in m.addr] for i in (0, 1))
            return z3.Or(z3.And(a[0] == b[0], a[1] == b[1]), b[2] < B)

        def conc2(rows):
            a, b = (at(rows, m.addr, i) for i in (0, 1))
            return a[:2] == b[:2] or b[2] < B
        m.ask("the first address of a segment is below 2^32", 2, goal2, conc2)
        ch.paths += 2

    def flags(ch):
        def goal(c, e):
            f, r = e.canon(c.filt(e, m.looked.filter, 0)), m.vv(c, e, m.isread, 0)
            return z3.Or(f == 1, z3.And(f == 0, r == 1))

        def conc(rows):
            f, r = filtval(m.looked.filter, rows[0], rows[0]), colval(m.isread, rows[0], rows[0])
            return f == 1 or (f == 0 and r == 1)
        for la in (0, 1):
            m.ask("rows that are no memory operation are reads, others are counted once" + (" (last row)" if la else ""), 2 - la, goal, conc, last=la)
            ch.paths += 1

    def reads(ch, same):
        rd = simple(m.isread)
        sg = simple(m.seg)
        for s in ([None] if same else m.segs):
            fx = {n + rd: 1} if rd is not None else {}
            if s is not None and sg is not None:
                fx[n + sg] = s

            def goal(c, e):
                a, b = ([m.vv(c, e, x, i) for x in m.addr] for i in (0, 1))
                x, y = ([m.vv(c, e, v, i) for v in m.vals] for i in (0, 1))
                eq = z3.And(*[p == q for p, q in zip(a, b)])
                pre = [m.vv(c, e, m.isread, 1) == 1]
                if same:
                    return z3.Implies(z3.And(eq, *pre), z3.And(*[p == q for p, q in zip(x, y)]))
                return z3.Implies(z3.And(z3.Not(eq), *pre, b[1] == s), z3.And(*[q == 0 for q in y]))

            def conc(rows):
                a, b = (at(rows, m.addr, i) for i in (0, 1))
                x, y = (at(rows, m.vals, i) for i in (0, 1))
                if colval(m.isread, rows[1], rows[1]) != 1:
                    return True
                return (a != b or x == y) if same else (a == b or b[1] != s or not any(y))
            if same:
                m.ask("a read at the previous row's address repeats its value", 2, goal, conc, fixed=fx)
            elif s not in m.pre:
                m.ask(f"the first access of an address of segment {s} reads zero", 2, goal, conc, fixed=fx)
            ch.paths += 1

    ch.parallel([("order", order), ("flags", flags), ("same", lambda ch: reads(ch, True)), ("new", lambda ch: reads(ch, False))])
    ch.sample({"range-checked lookups": len(m.rc), "segments": len(m.segs), "preinitialised": sorted(m.pre)})
    ch.outside.append("the first row of the trace; reads of preinitialised segments that no earlier row accesses")
    return ch.finish()
