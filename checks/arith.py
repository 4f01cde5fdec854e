"""Common part of C01-C03: rows of the arithmetic table."""
from stark import *

M256 = 1 << 256
BN = ops.BN_BASE
OPCODES = {"ADD": 0x01, "MUL": 0x02, "SUB": 0x03, "DIV": 0x04, "MOD": 0x06, "ADDMOD": 0x08, "MULMOD": 0x09, "ADDFP254": 0x0c,
           "MULFP254": 0x0d, "SUBFP254": 0x0e, "SUBMOD": 0x0f, "LT": 0x10, "GT": 0x11, "BYTE": 0x1a, "SHL": 0x1b, "SHR": 0x1c}


def truth(op, a, b, c):
    """Expected output word of a claimed row (inputs 0, 1, 2)."""
    m = M256 - 1
    return {"ADD": lambda: (a + b) & m, "MUL": lambda: a * b & m, "SUB": lambda: (a - b) & m, "DIV": lambda: a // b if b else 0,
            "MOD": lambda: a % b if b else 0, "ADDMOD": lambda: (a + b) % c if c else 0, "MULMOD": lambda: a * b % c if c else 0,
            "SUBMOD": lambda: (a - b) % c if c else 0, "ADDFP254": lambda: (a + b) % BN, "MULFP254": lambda: a * b % BN,
            "SUBFP254": lambda: (a - b) % BN, "LT": lambda: int(a < b), "GT": lambda: int(a > b),
            "BYTE": lambda: (b >> 8 * (31 - a)) & 255 if a < 32 else 0,
            "SHL": lambda: b * c & m, "SHR": lambda: b // c if c else 0}[op]()


class Arith(SCheck):
    def __init__(self, pid, tier):
        super().__init__(pid, tier)
        self.bnd = self.range_checks("arithmetic")
        self.lk = Looked(self, "arithmetic")
        cols = self.lk.cols
        self.opcol = cols[0]
        self.words = [cols[1 + 8 * i: 9 + 8 * i] for i in range(4)]
        self.extra_cols = cols[33:]
        self.n = self.sys.table("arithmetic").n
        self.functions += ["arithmetic/{addcy,mul,modular,divmod,byte,shift}.rs and arithmetic_stark.rs eval_packed_generic, executed on a symbolic field",
                           "ArithmeticStark::lookups, ctl_arithmetic_rows"]
        self.assumptions += ["the lookup argument implies that looked-up values occur in the table column (LogUp soundness)",
                             "fewer than p - 2^16 rows"]
        self.cpu_extra()

    def cpu_extra(self):
        """What the CPU table passes in the tuple's further columns when it claims a native arithmetic operation."""
        l = self.lk.ctl["looking_tables"]
        cpu = self.sys.table("cpu")
        self.claim_extra = []
        if not self.extra_cols:
            return
        import re
        cm = dbg_cpu(self.sys)
        for lt in l:
            for flag in ("binary_op", "ternary_op", "fp254_op", "shift"):
                lv = [0] * cpu.n
                lv[cm["op"][flag]] = 1
                v = tuple(colval(c, lv, lv) for c in lt["columns"][33:])
                if v not in self.claim_extra:
                    self.claim_extra.append(v)

    # ---------------------------------------------------------------- rows
    def word_poly(self, e, cols):
        """polynomial list (limb, shift) of a word: the value is sum limb << shift"""
        return [(e.lin(c), 32 * i) for i, c in enumerate(cols)]

    def word(self, e, cols):
        """Integer value of a word (the columns' linear combinations are over range-checked limbs)."""
        t = []
        for i, c in enumerate(cols):
            f = e.lin(c)
            lo, hi = e.prange(f)
            t.append((e.intexpr(f) if 0 <= lo and hi < P else e.canon(f)) * (1 << (32 * i)))
        return z3.Sum(t)

    def conc_word(self, cols, lv, nv):
        return sum(colval(c, lv, nv) << (32 * i) for i, c in enumerate(cols))

    def claims(self, opcode, lv, nv):
        """Does this concrete row claim the opcode?"""
        if filtval(self.lk.filter, lv, nv) == 0 or colval(self.opcol, lv, nv) != opcode:
            return False
        ex = tuple(colval(c, lv, nv) for c in self.extra_cols)
        return not self.extra_cols or ex in self.claim_extra

    def conc(self, op):
        def ok(lv, nv):
            if not self.claims(OPCODES[op], lv, nv):
                return True
            if any(not (lo <= lv[v] <= hi) for v, (lo, hi) in self.bnd.items()) or any(not (lo <= nv[v] <= hi) for v, (lo, hi) in self.bnd.items()):
                return True
            a, b, c, o = (self.conc_word(w, lv, nv) for w in self.words)
            return o == truth(op, a, b, c)
        return ok

    def bounds2(self):
        b = dict(self.bnd)
        b.update({v + self.n: x for v, x in self.bnd.items()})
        return b

    def flag_of(self, op):
        """The flag column with the coefficient of the opcode in the operation column."""
        fl = self.flags()
        cs = [v for v, c in self.opcol["linear_combination"] if c == OPCODES[op] and v in fl]
        return cs[0] if len(cs) == 1 else None

    def flags(self):
        fs = {v for c in self.lk.filter["constants"] for v, _ in c["linear_combination"]}
        return sorted(fs)

    def claim_case(self, ops_):
        """A row that claims the opcode has its flag set and no other."""
        fl = self.flags()
        # operand columns play no role here
        for op in ops_:
            f = self.flag_of(op)
            if f is None:
                self.undecide(f"no flag for {op}")
                continue
            for last in (0, 1):
                e = self.enc("arithmetic", bounds=self.bounds2(), keep=fl, last=last,
                             only=lambda i: True if self.small(i) else False)
                vals = {v: e.value(v) for v in fl}
                claim = z3.And(e.canon(e.lin(self.opcol)) == OPCODES[op], e.canon(self.lk.filt(e)) != 0)
                if self.extra_cols:
                    ex = [e.canon(e.lin(c)) for c in self.extra_cols]
                    claim = z3.And(claim, z3.Or(*[z3.And(*[x == y for x, y in zip(ex, v)]) for v in self.claim_extra]))
                goal = z3.Implies(claim, z3.And(vals[f] == 1, *[vals[v] == 0 for v in fl if v != f]))
                if last and op in ("DIV", "MOD", "ADDMOD", "MULMOD", "SUBMOD", "ADDFP254", "MULFP254", "SUBFP254", "SHR"):
                    goal = z3.Not(claim)
                r, m = self.prove(f"claim {op}", e, goal)
                if r == "unsat":
                    continue
                self.forge(op, e, m, fl, last)

    def small(self, i):
        """Constraints over the flags alone."""
        return self.within("arithmetic", i, set(self.flags()) | {v for v, _ in self.opcol["linear_combination"]})

    def forge(self, op, e, m, fl, last):
        """A row claiming `op` under forged flags: complete it with operands and a wrong output."""
        if m is None:
            return self.undecide(f"claim {op}: unknown")
        lv, nv = e.row(m)
        fixed = {v: lv[v] for v in set(fl) | {v for v, _ in self.opcol["linear_combination"]}}
        self.cex(op, fixed, last, f"a row claims {op} with flags {[v for v in fl if lv[v]]} and a wrong result")

    SAMPLES = [(0, 0, 0), (1, 0, 0), (0, 1, 1), (3, 2, 5), (7, 0, 0), (1 << 16, 1 << 16, 1 << 32), (M256 - 1, 1, 3), (1, M256 - 1, M256 - 1),
               (M256 - 1, M256 - 1, M256 - 1), (1 << 255, 2, 7), (5, 1 << 255, 1 << 128), (0x1234 << 240, 0x77, 0x9999 << 100),
               (31, 0x0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f20, 256), (0x10000, (1 << 256) - 12345, 0),
               (BN - 1, BN - 1, BN), (BN, 1, BN), (0x20, M256 - 7, 1 << 200), (1 << 200, M256 - 7, 1)]

    def cex(self, op, fixed, last, what, quiet=False):
        """Searches wrong rows with concrete operands; reports a violation if the real constraints accept one."""
        samples = list(self.SAMPLES) + [tuple(self.rng.getrandbits(256) for _ in range(3)) for _ in range(4)]
        for a, b, c in samples:
            if op.endswith("FP254"):
                c = BN
            fx = dict(fixed)
            okw = True
            for w, x in zip(self.words[:3], (a, b, c)):
                okw &= self.fix_word(fx, w, x)
            if not okw:
                continue
            want = truth(op, a, b, c)
            try:
                e = self.enc("arithmetic", fixed=fx, bounds=self.bounds2(), last=last, mul_atoms=False)
            except Infeasible:
                continue
            s = z3.Solver()
            s.set("timeout", 15000)
            out = self.word(e, self.words[3])
            s.add(*e.out)
            s.add(z3.Or(*[e.canon(e.lin(cc)) != (want >> (32 * i)) & 0xffffffff for i, cc in enumerate(self.words[3])]))
            s.add(*e.out)
            if self.solve(s) == z3.sat:
                lv, nv = e.row(s.model())
                if self.replay("arithmetic", lv, nv, last=last) and not self.conc(op)(lv, nv):
                    self.violation(what + f": inputs {a:#x}, {b:#x}, {c:#x}, output {self.conc_word(self.words[3], lv, nv):#x}",
                                   {"table": "arithmetic", "lv": lv, "nv": nv, "last": last}, key=f"{op}: forged row")
                    return True
        if not quiet:
            self.undecide(what + ": no concrete row found")
        return False

    def fix_word(self, fx, cols, x):
        for i, c in enumerate(cols):
            v = (x >> (32 * i)) & 0xffffffff
            lc = sorted(c["linear_combination"], key=lambda t: t[1])
            if len(lc) == 2 and lc[0][1] == 1 and lc[1][1] == 65536:
                for (col, _), val in zip(lc, (v & 0xffff, v >> 16)):
                    if fx.setdefault(col, val) != val:
                        return False
            else:
                return False
        return True

    def op_case(self, op, goal, last=0, more=None):
        """goal(e, a, b, c, out) -> condition on the words; concrete rows are judged by `truth`."""
        f = self.flag_of(op)
        fixed = {v: int(v == f) for v in self.flags()}
        for v, _ in self.opcol["linear_combination"]:
            fixed.setdefault(v, 0)
        fixed.update(more or {})
        # two encodings of the same rows: with every affine equation eliminated, and with the equations over bounded columns kept
        encs = []
        for lazy in (False, True):
            try:
                e = self.enc("arithmetic", fixed=fixed, bounds=self.bounds2(), last=last, lazy=lazy)
            except Infeasible:
                self.undecide(f"{op}: rows are infeasible")
                return
            encs.append((e, goal(e)))
        gs = encs[0][1]
        for k in range(len(gs)):
            for e, g, ms in [(e, g, ms) for ms in (4000, 20000, 60000) for e, g in encs]:
                nm = g[k][0]
                r, m = self.prove(f"{op}: {nm}", e, g[k][1], timeout=ms)
                if r != "unknown":
                    break
            if r != "unsat":
                if m is not None:
                    lv, nv = e.row(m)
                    if self.replay("arithmetic", lv, nv, last=last) and not self.conc(op)(lv, nv):
                        self.violation(f"{op}: {nm}: accepted row with a wrong result", {"table": "arithmetic", "lv": lv, "nv": nv, "last": last}, key=f"{op}: {nm}")
                        return
                self.cex(op, fixed, last, f"{op}: {nm} does not follow ({r}); wrong row")
                return
        e = encs[0][0]
        # vacuity: an honest row is accepted
        self.sample({"op": op, "flag column": f, "constraints": e.ncons, "columns eliminated": len(e.sub), "goals": [n for n, _ in gs]})
        self.paths += 1


def dbg_cpu(sys_):
    for n, s in sys_.info["column_maps"]:
        if n == "cpu":
            return field.dbg.parse(s)
