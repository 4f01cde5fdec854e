"""Shared encoding of the memory table (C06, C26)."""
from stark import *

B = 1 << 32                    # more rows than any table has
MEM, BEFORE, AFTER = 6, 7, 8


class Mem:
    def __init__(self, ch):
        self.ch = ch
        self.t = ch.sys.table("memory")
        lk = Looked(ch, "memory")
        self.looked = lk
        self.isread, self.ctx, self.seg, self.virt = lk.cols[:4]
        self.vals, self.ts = lk.cols[4:12], lk.cols[12]
        self.addr = [self.ctx, self.seg, self.virt]
        self.key = self.addr + [self.ts]
        self.segs = [s[1] for s in ch.sys.info["segments"]]
        names = {n: i for n, i, _ in ch.sys.info["segments"]}
        self.pre = {names[n] for n in ("Code", "TrieData", "AccountsLinkedList", "StorageLinkedList")}
        self.rc = self.ranges()
        ch.bound(f"traces of fewer than 2^32 rows; every declared segment ({len(self.segs)}) of the second row")
        ch.assumptions += ["the lookup argument implies that looked-up values of rows whose filter is 1 occur in the table column (LogUp soundness)",
                           "is_read is boolean in rows that a CPU, byte packing, sponge or MemBefore row looks up (C12)",
                           "accesses use declared segments"]

    def ranges(self):
        """[(column, filter)] of the lookups into a counter that starts at 0 and increases by one."""
        out = []
        for l in self.ch.sys.lookups("memory"):
            tc = simple(l["table_column"])
            if tc is None:
                continue
            n = self.t.n
            e = self.ch.enc("memory", first=1, keep=(tc,), only=lambda i: self.ch.within("memory", i, {tc, tc + n}))
            if self.ch.prove("counter starts at 0", e, e.value(tc) == 0)[0] != "unsat":
                continue
            e = self.ch.enc("memory", keep=(tc, tc + n), only=lambda i: self.ch.within("memory", i, {tc, tc + n}))
            x, y = e.value(tc), e.value(tc + n)
            if self.ch.prove("counter steps by at most 1", e, z3.Or(y == x, y == x + 1, z3.And(x == P - 1, y == 0)))[0] != "unsat":
                continue
            out += list(zip(l["columns"], l["filter_columns"]))
        return out

    def chain(self, k, first=0, last=0, fixed=None):
        c = Chain(self.t, k, first, last)
        keep = [i * self.t.n + v for i in range(k) for v in [simple(x) for x in self.key + self.vals + [self.isread]] if v is not None]
        e = Enc(c, fixed=fixed or {}, keep=keep)
        self.ch.states += e.ncons
        for i in range(k - 1):
            for col, f in self.rc:
                v = e.canon(c.lin(e, col, i))
                if always(f):
                    e.out.append(v < B)
                else:
                    e.out.append(z3.Or(e.canon(c.filt(e, f, i)) != 1, v < B))
        return c, e

    def vv(self, c, e, col, i):
        return e.canon(c.lin(e, col, i))

    def concrete_pre(self, rows):
        """Do concrete consecutive rows satisfy the range checks?"""
        for lv, nv in zip(rows, rows[1:]):
            for col, f in self.rc:
                if filtval(f, lv, nv) == 1 and colval(col, lv, nv) >= B:
                    return False
        return True

    def accepted(self, rows, first=0, last=0):
        for i, (lv, nv) in enumerate(zip(rows, rows[1:])):
            if not self.ch.replay("memory", lv, nv, first if i == 0 else 0, 0):
                return False
        return not last or self.ch.replay("memory", rows[-1], rows[0], first if len(rows) == 1 else 0, 1)

    def ask(self, what, k, goal, concrete, first=0, last=0, fixed=None, key=None, quiet=False):
        """goal(c, e) for every accepted chain of k rows; concrete(rows) is the same on concrete rows. -> as ask_row"""
        try:
            c, e = self.chain(k, first, last, fixed)
        except Infeasible:
            return True
        g = goal(c, e)
        r, m = self.ch.prove(what, e, g)
        if r == "unsat":
            return True
        for rows in self.cands(c, e, m, goal, k, first, last, fixed):
            if self.concrete_pre(rows) and self.accepted(rows, first, last) and not concrete(rows):
                self.ch.violation(what, {"table": "memory", "rows": rows, "first": first, "last": last}, key=key or what)
                return False
        if not quiet:
            self.ch.undecide(f"{what}: {r}" + ("; rows not confirmed by the real constraints" if r == "sat" else ""))
        return None

    def cands(self, c, e, m, goal, k, first, last, fixed, tries=10):
        if m is None:
            return
        yield c.rows(e, m)
        pairs = [[v for v in sorted(set(x)) if v < field.AUXV and e.bounds(v) != (0, 1)] for x in e.atoms if len(x) > 1]
        pairs = [p for p in pairs if p]
        for t in range(tries):
            fx = dict(fixed or {})
            for p in pairs:
                if any(v in fx for v in p):
                    continue
                v = p[0] if t < 2 else self.ch.rng.choice(p)
                mv = m.eval(e.ivar(v), model_completion=True).as_long() % P
                fx[v] = mv if t == 0 else self.ch.rng.choice([mv, 0, 1, 5])
            try:
                c2, e2 = self.chain(k, first, last, fx)
            except Infeasible:
                continue
            r, m2 = self.ch.prove("replay", e2, goal(c2, e2), timeout=20000)
            self.ch.obligations -= 1
            if m2 is not None:
                m = m2 if t >= 1 and not pairs else m
                yield c2.rows(e2, m2)


def dist(a, b):
    return z3.If(b >= a, b - a, b - a + P)


def And(*a):
    return z3.And(*a)
