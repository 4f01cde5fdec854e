"""Check framework for the STARK tables."""
import random
from fw import *
import field
from field import Enc, Infeasible, P, simple


def ival(t):
    t = z3.simplify(t) if not isinstance(t, (int, bool)) else t
    if isinstance(t, (int, bool)):
        return t
    if z3.is_int_value(t):
        return t.as_long()
    return True if z3.is_true(t) else False if z3.is_false(t) else None


class SCheck(Check):
    def __init__(self, pid, tier):
        super().__init__(pid, tier)
        self.dir = build.dump()
        self.sys = field.Sys(self.dir)
        self._srv = None
        self.rng = random.Random(int(os.environ.get("VERIF_SEED", "1") or 1))
        self.timeout = 60000

    @property
    def srv(self):
        if self._srv is None:
            self._srv = build.Server()
        return self._srv

    def enc(self, table, **kw):
        e = Enc(self.sys.table(table), **kw)
        self.states += e.ncons
        return e

    def prove(self, name, e, goal, extra=(), timeout=None):
        """unsat(enc & not goal)? -> ('unsat'|'sat'|'unknown', solver model)"""
        n0 = len(e.out)
        s = z3.Solver()
        s.set("timeout", timeout or self.timeout)
        s.add(*e.out)
        for x in extra:
            s.add(x)
        s.add(z3.Not(goal))
        r = self.solve(s)
        self.obligations += 1
        return str(r), (s.model() if r == z3.sat else None)

    def within(self, table, i, cols):
        """Does constraint i only read the given columns?"""
        memo = self.__dict__.setdefault("_supp", {})
        if (table, i) not in memo:
            t = self.sys.table(table)
            memo[(table, i)] = support(t, t.cons[i])
        return memo[(table, i)] <= cols

    def replay(self, table, lv, nv, first=0, last=0):
        r = self.srv.ask({"table": table, "lv": lv, "nv": nv, "first": first, "last": last, "z_last": 0 if last else 1})
        self.replayed += 1
        return r.get("ok", False)

    def ask_row(self, what, table, case, goalfn, concrete, key=None, quiet=False, timeout=None):
        """Proves goalfn(enc) for every accepted row of the case (arguments of Enc); otherwise looks for a concrete
        accepted row that violates `concrete(lv, nv)`, the property on concrete rows. -> True proved, False violated,
        None neither."""
        try:
            e = self.enc(table, **case)
        except Infeasible:
            return True
        g = goalfn(e)
        r, m = self.prove(what, e, g, timeout=timeout)
        if r == "unsat":
            return True
        for lv, nv in self.candidates(table, case, goalfn, e, m):
            if self.replay(table, lv, nv, case.get("first", 0), case.get("last", 0)) and not concrete(lv, nv):
                self.violation(what, {"table": table, "lv": lv, "nv": nv, "first": case.get("first", 0), "last": case.get("last", 0)}, key=key or what)
                return False
        if not quiet:
            self.undecide(f"{what}: {r}" + ("; row not confirmed by the real constraints" if r == "sat" else ""))
        return None

    def candidates(self, table, case, goalfn, e, m, tries=12):
        """Concrete rows that may violate the goal: the solver's model, then models of the rows in which one factor
        of every product is fixed (to its model value or to a simple one), which leaves a linear problem."""
        if m is not None:
            yield e.row(m)
        pairs = [sorted(set(x)) for x in e.atoms if len(set(x)) > 1] + [[x[0]] for x in e.atoms if len(x) > 1 and len(set(x)) == 1]
        pairs = [[v for v in p if v < field.AUXV] for p in pairs]
        for t in range(tries):
            cover, todo = [], [p for p in pairs if p]
            while todo:
                cnt = {}
                for p in todo:
                    for v in p:
                        lo, hi = e.bounds(v)
                        cnt[v] = cnt.get(v, 0) + (1 if (lo, hi) == (0, field.P - 1) else 2) + (self.rng.random() * 3 if t else 0)
                v = max(cnt, key=cnt.get)
                cover.append(v)
                todo = [p for p in todo if len(p) > 1 and v not in p] if t % 2 else [p for p in todo if v not in p]
            fx = dict(case.get("fixed") or {})
            for v in cover:
                lo, hi = e.bounds(v)
                mv = m.eval(e.ivar(v), model_completion=True).as_long() % field.P if m is not None else lo
                fx[v] = mv if t < 2 else self.rng.choice([mv, 0, 1, lo % field.P, hi % field.P, self.rng.randrange(lo, hi + 1) % field.P])
            c2 = dict(case)
            c2["fixed"] = fx
            try:
                e2 = Enc(self.sys.table(table), **c2)
            except Infeasible:
                continue
            r, m2 = self.prove("replay", e2, goalfn(e2), timeout=20000)
            self.obligations -= 1
            if m2 is not None:
                yield e2.row(m2)

    # ------------------------------------------------------------ range checks
    def range_checks(self, table, report=True):
        """Bounds of the range-checked columns of a table: the counter column is decided to run from 0 upwards in
        steps of at most one and to end at a fixed maximum. Lookups with other table columns are ignored."""
        out = {}
        for l in self.sys.lookups(table):
            tc = simple(l["table_column"])
            if tc is None:
                continue
            mx = self.counter_max(table, tc)
            if mx is None:
                continue
            for c, f in zip(l["columns"], l["filter_columns"]):
                v = simple(c)
                if v is None or not always(f):
                    continue
                out[v] = (0, mx)
        return out

    def counter_max(self, table, tc):
        memo = self.__dict__.setdefault("_counters", {})
        if (table, tc) in memo:
            return memo[(table, tc)]
        memo[(table, tc)] = None
        n = self.sys.table(table).n
        e = self.enc(table, first=1, keep=(tc,))
        if self.prove("counter starts at 0", e, e.value(tc) == 0)[0] != "unsat":
            return None
        e = self.enc(table, keep=(tc,))
        x, y = e.value(tc), e.value(tc + n)
        if self.prove("counter steps by at most 1", e, z3.Or(y == x, y == x + 1, z3.And(x == P - 1, y == 0)))[0] != "unsat":
            return None
        e = self.enc(table, last=1, keep=(tc,))
        x = e.value(tc)
        r, m = self.prove("counter end", e, z3.BoolVal(False))
        if r != "sat":
            return None
        v = m.eval(x, model_completion=True).as_long()
        if self.prove("counter end is unique", e, x == v)[0] != "unsat":
            return None
        memo[(table, tc)] = v
        return v


def always(f):
    """Is the filter the constant 1?"""
    return not f["products"] and all(not c["linear_combination"] and not c["next_row_linear_combination"] for c in f["constants"]) \
        and sum(c["constant"] for c in f["constants"]) % P == 1


class Looked:
    """The tuple by which a table's rows are claimed through a cross-table lookup."""

    def __init__(self, ch, table, which=0):
        self.ch, self.table = ch, table
        self.ctl = ch.sys.looked(table)[which]
        self.cols = self.ctl["looked_table"]["columns"]
        self.filter = self.ctl["looked_table"]["filter"]

    def filt(self, e):
        f = {}
        for a, b in self.filter["products"]:
            f = field.padd(f, field.pmul(e.lin(a), e.lin(b)))
        for c in self.filter["constants"]:
            f = field.padd(f, e.lin(c))
        return field.psub(f, e.sub)


def colval(col, lv, nv):
    return (col["constant"] + sum(c * lv[v] for v, c in col["linear_combination"]) + sum(c * nv[v] for v, c in col["next_row_linear_combination"])) % P


def filtval(f, lv, nv):
    return (sum(colval(a, lv, nv) * colval(b, lv, nv) for a, b in f["products"]) + sum(colval(c, lv, nv) for c in f["constants"])) % P


def support(t, i):
    seen, todo, out = set(), [i], set()
    while todo:
        j = todo.pop()
        if j in seen:
            continue
        seen.add(j)
        nd = t.nodes[j]
        if nd[0] == 1:
            if nd[1] >= 0:
                out.add(nd[1])
        elif nd[0] != 0:
            todo.extend(nd[1:])
    return out


class Chain:
    """A table seen over k consecutive rows: row i holds columns i*m..(i+1)*m. first/last: the chain starts at the
    first row / ends at the last row of the trace."""

    def __init__(self, t, k, first=0, last=0):
        self.base, self.k, self.m = t, k, t.n
        self.n = t.n * ((k + 2) // 2)   # one more row: what follows the last one
        self.name = f"{t.name} x{k}"
        self.nodes, self.cons = [], []
        pairs = k if last else k - 1
        for i in range(pairs):
            sp = {-1: 0 if last and i == k - 1 else 1, -2: 1 if first and i == 0 else 0, -3: 1 if last and i == k - 1 else 0}
            off = len(self.nodes)
            for nd in t.nodes:
                if nd[0] == 0:
                    self.nodes.append(nd)
                elif nd[0] == 1:
                    v = nd[1]
                    if v < 0:
                        self.nodes.append([0, sp.get(v, 0)])
                    else:
                        self.nodes.append([1, v + i * t.n])
                else:
                    self.nodes.append([nd[0]] + [x + off for x in nd[1:]])
            self.cons += [c + off for c in t.cons]
        self.pairs = [(i, 1 if first and i == 0 else 0, 1 if last and i == k - 1 else 0) for i in range(pairs)]

    def rows(self, e, m):
        a, b = e.row(m)
        v = a + b
        return [v[i * self.m:(i + 1) * self.m] for i in range(self.k)]

    def lin(self, e, col, i):
        f = field.pconst(col["constant"])
        for v, c in col["linear_combination"]:
            f = field.padd(f, {(v + i * self.m,): c % P})
        for v, c in col["next_row_linear_combination"]:
            f = field.padd(f, {(v + (i + 1) * self.m,): c % P})
        return field.psub(f, e.sub)

    def filt(self, e, f, i):
        r = {}
        for a, b in f["products"]:
            r = field.padd(r, field.pmul(self.lin(e, a, i), self.lin(e, b, i)))
        for c in f["constants"]:
            r = field.padd(r, self.lin(e, c, i))
        return field.psub(r, e.sub)
