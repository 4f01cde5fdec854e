"""C07: Keccak permutation and sponge tables."""
from stark import *
from cpu import z, eq, all_, any_, neg, impl, T, F, sym, conc, W
from field import padd, pmul, pscale, pconst, psub, peval

RC = [0x0000000000000001, 0x0000000000008082, 0x800000000000808a, 0x8000000080008000, 0x000000000000808b, 0x0000000080000001, 0x8000000080008081,
      0x8000000000008009, 0x000000000000008a, 0x0000000000000088, 0x0000000080008009, 0x000000008000000a, 0x000000008000808b, 0x800000000000008b,
      0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080, 0x000000000000800a, 0x800000008000000a, 0x8000000080008081,
      0x8000000000008080, 0x0000000080000001, 0x8000000080008008]
M64 = (1 << 64) - 1
# rotation offsets of rho, from its definition: t-th step of (x, y) -> (y, 2x + 3y) rotates by (t + 1)(t + 2)/2
ROT = {(0, 0): 0}
_x, _y = 1, 0
for _t in range(24):
    ROT[_x, _y] = (_t + 1) * (_t + 2) // 2 % 64
    _x, _y = _y, (2 * _x + 3 * _y) % 5


def rol(v, k):
    return ((v << k) | (v >> (64 - k))) & M64 if k else v


def theta(a):
    c = [a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4] for x in range(5)]
    return c, [[a[x][y] ^ c[(x - 1) % 5] ^ rol(c[(x + 1) % 5], 1) for y in range(5)] for x in range(5)]


def round_(a, r):
    c, ap = theta(a)
    b = [[0] * 5 for _ in range(5)]
    for x in range(5):
        for y in range(5):
            b[y][(2 * x + 3 * y) % 5] = rol(ap[x][y], ROT[x, y])
    app = [[b[x][y] ^ (~b[(x + 1) % 5][y] & M64 & b[(x + 2) % 5][y]) for y in range(5)] for x in range(5)]
    out = [list(q) for q in app]
    out[0][0] ^= RC[r]
    return c, ap, app, out


V = lambda v: {(v,): 1}


def xor_p(a, b):
    return padd(padd(a, b), pscale(pmul(a, b), 2), -1)


def run(tier):
    ch = SCheck("C07", tier)
    ch.functions += ["KeccakStark::eval_packed_generic, keccak/round_flags.rs", "KeccakSpongeStark::eval_packed_generic and lookups()",
                     "columns and filters of the cross-table lookups of both tables"]
    ch.assumptions += ["the cross-table lookup and LogUp arguments are sound", "fewer than 2^32 rows"]
    perm = Perm(ch)
    sponge = Sponge(ch)
    ch.parallel(perm.jobs() + sponge.jobs())
    ch.bound("one round per row for all 24 rounds and every 1600-bit state; sponge rows with every number of input bytes 0..136, first, last and inner rows; any number of blocks by induction over the rows")
    ch.outside += ["two blocks of one sponge share a timestamp: exchanging their permutations requires a fixed point of Keccak-f on the capacity (cryptographic)",
                   "that the bytes in memory are below 256: the memory's writers (C05) and the range check of the block bytes",
                   "the circuit versions of the constraints (equal to the packed ones by the repository's own test)"]
    return ch.finish()


class Perm:
    def __init__(self, ch):
        self.ch = ch
        self.t = ch.sys.table("keccak")
        self.n = self.t.n
        # column layout (keccak/columns.rs)
        self.step = list(range(24))
        self.ts = 24
        self.a = {(x, y, h): 25 + (x * 5 + y) * 2 + h for x in range(5) for y in range(5) for h in range(2)}
        self.c = {(x, k): 75 + x * 64 + k for x in range(5) for k in range(64)}
        self.cp = {(x, k): 395 + x * 64 + k for x in range(5) for k in range(64)}
        self.ap = {(x, y, k): 715 + x * 320 + y * 64 + k for x in range(5) for y in range(5) for k in range(64)}
        self.app = {(x, y, h): 2315 + x * 10 + y * 2 + h for x in range(5) for y in range(5) for h in range(2)}
        self.bits = [2365 + i for i in range(64)]
        self.out = dict(self.app)
        self.out[0, 0, 0], self.out[0, 0, 1] = 2429, 2430
        self.setA, self.setC, self.setCp = set(self.a.values()), set(self.c.values()), set(self.cp.values())
        self.setAp, self.setApp = set(self.ap.values()), set(self.app.values())
        self.down = self.setApp | set(self.bits) | {2429, 2430}

    def supp(self, i):
        self.ch.within("keccak", i, set())
        return self.ch._supp["keccak", i]

    # ---------------------------------------------------------------- honest rows and forgeries
    def honest(self, a, r):
        c, ap, app, out = round_(a, r)
        row = [0] * self.n
        row[self.step[r]] = 1
        for x in range(5):
            for k in range(64):
                row[self.c[x, k]] = c[x] >> k & 1
                row[self.cp[x, k]] = (c[x] ^ c[(x - 1) % 5] ^ rol(c[(x + 1) % 5], 1)) >> k & 1
            for y in range(5):
                for h in range(2):
                    row[self.a[x, y, h]] = a[x][y] >> 32 * h & W
                    row[self.app[x, y, h]] = app[x][y] >> 32 * h & W
                for k in range(64):
                    row[self.ap[x, y, k]] = ap[x][y] >> k & 1
        for k in range(64):
            row[self.bits[k]] = app[0][0] >> k & 1
        for h in range(2):
            row[self.out[0, 0, h]] = out[0][0] >> 32 * h & W
        return row, out

    def good(self, lv, nv, last=0):
        """the property on a concrete pair of rows"""
        fl = [lv[s] for s in self.step]
        if sorted(fl) != [0] * 23 + [1]:
            return not any(fl)
        r = fl.index(1)
        a = [[lv[self.a[x, y, 0]] | lv[self.a[x, y, 1]] << 32 for y in range(5)] for x in range(5)]
        if any(lv[v] > W for v in self.setA):
            return True   # the inputs of the first round are 32-bit limbs; those of the others are outputs
        out = round_(a, r)[3]
        if any(lv[self.out[x, y, h]] != out[x][y] >> 32 * h & W for x in range(5) for y in range(5) for h in range(2)):
            return False
        if r < 23 and not last:
            if [nv[s] for s in self.step] != [int(i == r + 1) for i in range(24)] or nv[self.ts] != lv[self.ts]:
                return False
            return all(nv[self.a[x, y, h]] == out[x][y] >> 32 * h & W for x in range(5) for y in range(5) for h in range(2))
        if r == 23 and not last:
            return [nv[s] for s in self.step] in ([1] + [0] * 23, [0] * 24)
        return True

    def forge(self, what, key, cols, rounds=(0, 7, 23), last=0):
        """Rows accepted by all constraints that are not a round of Keccak-f: honest rows in which the given columns
        and all that depend on them are free."""
        ch = self.ch
        tries = []
        local = {v for v in cols if v < self.n}
        tries.append(local)
        bys = sorted(local & self.setAp)
        if bys:
            v = bys[0] - 715
            x, y, k = v // 320, v // 64 % 5, v % 64
            k2 = k ^ 1
            for y2 in ((y + 1) % 5, (y + 2) % 5):
                tries.append({self.ap[x, q, j] for q in (y, y2) for j in (k, k2)})
        cs = sorted(local & (self.setC | self.setCp))
        if cs:
            v = cs[0] - (75 if cs[0] in self.setC else 395)
            x, k = v // 64, v % 64
            for w in (0, 1, 2):
                ks = sorted({k, k ^ 1} if w < 2 else {k, k ^ 1, (k + 1) % 64})
                xs = (x,) if w == 0 else (x, (x + 1) % 5, (x - 1) % 5)
                tries.append({self.c[q, j] for q in xs[:1] for j in ks} | {self.cp[q, j] for q in range(5) for j in range(64)} | {self.ap[q, y, j] for q in xs for y in range(5) for j in ks})
        for r in rounds:
            a = [[ch.rng.getrandbits(64) for _ in range(5)] for _ in range(5)]
            lv, out = self.honest(a, r)
            nv = self.honest(out, r + 1)[0] if r < 23 else [0] * self.n
            for free in tries:
                fx = {v: lv[v] for v in range(self.n) if v not in free | self.down}
                nfree = {v + self.n for v in self.setA} | {v + self.n for v in self.step} | {self.ts + self.n} | {v for v in cols if v >= self.n}
                fx.update({v + self.n: nv[v] for v in range(self.n) if v + self.n not in nfree})
                try:
                    e = Enc(self.t, fixed=fx, last=last, bounds={v + self.n: (0, 1) for v in self.step})
                except Infeasible:
                    continue
                want = []
                for x in range(5):
                    for y in range(5):
                        for h in range(2):
                            want.append(e.canon(psub(V(self.out[x, y, h]), e.sub)) == out[x][y] >> 32 * h & W)
                            if r < 23 and not last:
                                want.append(e.canon(psub(V(self.a[x, y, h] + self.n), e.sub)) == out[x][y] >> 32 * h & W)
                if not last:
                    if r < 23:
                        want += [e.canon(psub(V(s + self.n), e.sub)) == int(i == r + 1) for i, s in enumerate(self.step)] + [e.canon(psub(V(self.ts + self.n), e.sub)) == 0]
                    else:
                        fl = [e.canon(psub(V(s + self.n), e.sub)) for s in self.step]
                        want.append(z3.Or(z3.And(*[f == int(i == 0) for i, f in enumerate(fl)]), z3.And(*[f == 0 for f in fl])))
                s = z3.Solver()
                s.set("timeout", 30000)
                s.add(*e.out)
                s.add(z3.Not(z3.And(*want)))
                if ch.solve(s) != z3.sat:
                    continue
                l2, n2 = e.row(s.model())
                if ch.replay("keccak", l2, n2, 0, last) and not self.good(l2, n2, last):
                    ch.violation(what, {"table": "keccak", "lv": l2, "nv": n2, "first": 0, "last": last}, key=key)
                    return True
        return False

    def ask(self, ch, what, cols, only, cond, fixed=None, bounds=None, first=0, last=0, key=None):
        kw = dict(fixed=fixed or {}, keep=(), only=only, bounds=bounds or {}, first=first, last=last)
        try:
            e = ch.enc("keccak", **kw)
        except Infeasible:
            return True
        r, m = ch.prove(what, e, sym(e, cond))
        if r == "unsat":
            return True
        self.ch = ch
        rs = [self.step.index(v) for v, c in (fixed or {}).items() if v in self.step and c == 1]
        if not first and not cols <= set(self.step) | {v + self.n for v in self.step} and self.forge(what, key or what, cols, rs[:1] if rs else (0, 7, 23), last):
            return False
        if self.forge_flags(ch, what, key or what, cond, fixed or {}, first, last, bounds):
            return False
        ch.undecide(f"{what}: {r}; no accepted row found")
        return None

    def forge_flags(self, ch, what, key, cond, fixed, first, last, bounds):
        """rows of a zero state with free flags"""
        fx = {v: 0 for v in range(2 * self.n) if v % self.n not in self.step and v % self.n != self.ts and v % self.n not in self.down}
        fx.update({v: 0 for v in self.setApp - {2315, 2316}})
        fx.update(fixed)
        try:
            e = Enc(self.t, fixed=fx, first=first, last=last, bounds={v: b for v, b in (bounds or {}).items() if v not in fx})
        except Infeasible:
            return False
        s = z3.Solver()
        s.set("timeout", 30000)
        s.add(*e.out)
        s.add(z3.Not(sym(e, cond)))
        if ch.solve(s) == z3.sat:
            lv, nv = e.row(s.model())
            if ch.replay("keccak", lv, nv, first, last) and not conc(cond, lv + nv):
                ch.violation(what, {"table": "keccak", "lv": lv, "nv": nv, "first": first, "last": last}, key=key)
                return True
        return False

    # ---------------------------------------------------------------- lemmas
    def jobs(self):
        return [("flags", self.flags), ("bits", self.bool_bits), ("theta", self.theta), ("parity", self.parity), ("chi", self.chi), ("iota", self.iota), ("links", self.links)]

    def flags(self, ch):
        fl = set(self.step)
        both = fl | {v + self.n for v in fl}
        only = lambda i: ch.within("keccak", i, both)
        onehot = lambda r, nx: all_(*[eq(V(s + (self.n if nx else 0)), int(i == r)) for i, s in enumerate(self.step)])
        none = lambda nx: onehot(None, nx)
        self.ask(ch, "permutation: round flags are boolean", fl, only, all_(*[any_(z(V(s)), eq(V(s), 1)) for s in self.step]), key="round flags")
        bb = {v: (0, 1) for v in both}
        self.ask(ch, "permutation: the trace starts with round 0 or padding", fl, only, any_(onehot(0, 0), none(0)), first=1, bounds=bb, key="first round")
        for r in list(range(24)) + [None]:
            fx = {s: int(i == r) for i, s in enumerate(self.step)}
            g = none(1) if r is None else any_(onehot(0, 1), none(1)) if r == 23 else onehot(r + 1, 1)
            if self.ask(ch, f"permutation: what follows round {r}", both, only, g, fixed=fx, bounds=bb, key="round order") is False:
                break

    def bool_bits(self, ch):
        cols = sorted(self.setC | self.setAp | set(self.bits))
        only = lambda i: len(self.supp(i)) == 1
        self.ch = ch
        e = ch.enc("keccak", only=only)
        one = lambda v: any_(z(V(v)), eq(V(v), 1))
        r, m = ch.prove("bits are boolean", e, sym(e, all_(*[one(v) for v in cols])))
        ch.obligations += len(cols) - 1
        if r == "unsat":
            return
        for nm, vs in (("C", self.setC), ("A'", self.setAp), ("A''[0,0]", set(self.bits))):
            bad = [v for v in sorted(vs) if ch.prove("bit", e, sym(e, one(v)))[0] != "unsat"]
            if bad:
                # one representative is enough
                if not any(self.forge(f"permutation: a bit of {nm} can be any field element", f"{nm} boolean", {v}, (7,)) for v in bad[:2]):
                    ch.undecide(f"permutation: {len(bad)} columns of {nm} are not constrained to be bits, no forged row was found")

    def theta(self, ch):
        self.ch = ch
        g = [eq(V(self.cp[x, k]), xor_p(xor_p(V(self.c[x, k]), V(self.c[(x - 1) % 5, k])), V(self.c[(x + 1) % 5, (k - 1) % 64]))) for x in range(5) for k in range(64)]
        bb = {v: (0, 1) for v in self.setC | self.setCp | self.setAp}
        e = ch.enc("keccak", only=lambda i: self.supp(i) <= self.setC | self.setCp, bounds={v: (0, 1) for v in self.setC})
        r, m = ch.prove("C'", e, sym(e, all_(*g)))
        ch.obligations += len(g) - 1
        if r != "unsat":
            for (x, k), q in zip([(x, k) for x in range(5) for k in range(64)], g):
                if ch.prove("C'", e, sym(e, q))[0] != "unsat":
                    if not self.forge(f"permutation: C'[{x},{k}] is not the xor of its three columns", "C'", {self.cp[x, k]}):
                        ch.undecide(f"permutation: C'[{x},{k}] not determined; no accepted row found")
                    break
        e = ch.enc("keccak", bounds=bb, only=lambda i: self.supp(i) <= self.setA | self.setC | self.setCp | self.setAp and bool(self.supp(i) & self.setA))
        for x in range(5):
            for y in range(5):
                for h in range(2):
                    s = {}
                    for k in range(32):
                        q = 32 * h + k
                        s = padd(s, pscale(xor_p(V(self.ap[x, y, q]), xor_p(V(self.c[x, q]), V(self.cp[x, q]))), 1 << k))
                    if ch.prove("A", e, sym(e, z(bred(psub(padd(V(self.a[x, y, h]), s, -1), e.sub), e))))[0] != "unsat":
                        cols = {self.ap[x, y, 32 * h + k] for k in range(32)}
                        if not self.forge(f"permutation: input limb {x},{y},{h} is not A' xor D", "A limb", cols):
                            ch.undecide(f"permutation: input limb {x},{y},{h}: no accepted row found")
        # bitwise: these relations and the parity of A' (next job) make A' the theta step of A
        B = lambda nm: z3.Bool(nm)
        for y0 in range(5):
            s = z3.Solver()
            X = ("m", "0", "p")    # columns x-1 at z, x at z, x+1 at z-1
            for w in X:
                aps = [B(f"ap_{w}_{y}") for y in range(5)]
                s.add(B(f"cp_{w}") == xor_z(aps))
                for y in range(5):
                    s.add(B(f"a_{w}_{y}") == xor_z([aps[y], B(f"c_{w}"), B(f"cp_{w}")]))
            s.add(B("cp_0") == xor_z([B("c_0"), B("c_m"), B("c_p")]))
            s.add(B(f"ap_0_{y0}") != xor_z([B(f"a_0_{y0}")] + [B(f"a_{w}_{y}") for w in ("m", "p") for y in range(5)]))
            ch.obligations += 1
            if ch.solve(s) != z3.unsat:
                ch.undecide("theta lemma")

    def parity(self, ch):
        self.ch = ch
        for x in range(5):
            for k in range(64):
                vs = [self.ap[x, y, k] for y in range(5)]
                cols = set(vs) | {self.cp[x, k]}
                e = ch.enc("keccak", bounds={v: (0, 1) for v in cols}, only=lambda i: self.supp(i) <= cols)
                odd = xor_z([e.value(v) == 1 for v in vs])
                if ch.prove("parity", e, (e.value(self.cp[x, k]) == 1) == odd)[0] != "unsat":
                    free = cols | {self.cp[q, j] for q in range(5) for j in range(64)}
                    if not self.forge(f"permutation: C'[{x},{k}] is not the parity of its column", "parity", free) and not self.forge_parity(ch, x, k):
                        ch.undecide(f"permutation: parity of column {x},{k}: no accepted row found")
                    return

    def forge_parity(self, ch, x, k):
        """Column parities that are wrong throughout: the honest row of another C."""
        for r in (3, 23):
            a = [[ch.rng.getrandbits(64) for _ in range(5)] for _ in range(5)]
            c = [q for q in theta(a)[0]]
            c[x] ^= 1 << k
            lv, _ = self.honest(a, r)
            cp = [c[q] ^ c[(q - 1) % 5] ^ rol(c[(q + 1) % 5], 1) for q in range(5)]
            for q in range(5):
                for j in range(64):
                    lv[self.c[q, j]], lv[self.cp[q, j]] = c[q] >> j & 1, cp[q] >> j & 1
                    for y in range(5):
                        lv[self.ap[q, y, j]] = (a[q][y] ^ c[q] ^ cp[q]) >> j & 1
            fx = {v: lv[v] for v in range(self.n) if v not in self.down}
            try:
                e = Enc(self.t, fixed=fx)
            except Infeasible:
                continue
            s = z3.Solver()
            s.set("timeout", 30000)
            s.add(*e.out)
            if ch.solve(s) == z3.sat:
                l2, n2 = e.row(s.model())
                if ch.replay("keccak", l2, n2) and not self.good(l2, n2):
                    ch.violation(f"permutation: C'[{x},{k}] is not the parity of its column", {"table": "keccak", "lv": l2, "nv": n2, "first": 0, "last": 0}, key="parity")
                    return True
        return False

    def b(self, x, y, k):
        """column of bit k of B[x][y]: B[y, 2x+3y] = rol(A'[x, y], ROT)"""
        for p in range(5):
            for q in range(5):
                if (q, (2 * p + 3 * q) % 5) == (x, y):
                    return self.ap[p, q, (k - ROT[p, q]) % 64]

    def chi(self, ch):
        self.ch = ch
        e = ch.enc("keccak", bounds={v: (0, 1) for v in self.setAp}, only=lambda i: self.supp(i) <= self.setAp | self.setApp and bool(self.supp(i) & self.setApp))
        for x in range(5):
            for y in range(5):
                for h in range(2):
                    s = {}
                    for k in range(32 * h, 32 * h + 32):
                        b0, b1, b2 = [V(self.b((x + d) % 5, y, k)) for d in range(3)]
                        s = padd(s, pscale(xor_p(b0, pmul(padd(pconst(1), b1, -1), b2)), 1 << (k % 32)))
                    if ch.prove("chi", e, sym(e, z(bred(psub(padd(V(self.app[x, y, h]), s, -1), e.sub), e))))[0] != "unsat":
                        if not self.forge(f"permutation: limb {x},{y},{h} after chi", "chi", {self.app[x, y, h]}):
                            ch.undecide(f"permutation: limb {x},{y},{h} after chi: no accepted row found")
                        return

    def iota(self, ch):
        self.ch = ch
        reg = {self.app[0, 0, 0], self.app[0, 0, 1], self.out[0, 0, 0], self.out[0, 0, 1]} | set(self.bits) | set(self.step)
        for r in range(24):
            fx = {s: int(i == r) for i, s in enumerate(self.step)}
            g = []
            for h in range(2):
                s, t = {}, {}
                for k in range(32):
                    b = V(self.bits[32 * h + k])
                    s = padd(s, pscale(b, 1 << k))
                    t = padd(t, pscale(padd(pconst(1), b, -1) if RC[r] >> (32 * h + k) & 1 else b, 1 << k))
                g += [eq(V(self.app[0, 0, h]), s), eq(V(self.out[0, 0, h]), t)]
            self.ask(ch, f"permutation: round constant of round {r}", set(self.bits), lambda i: self.supp(i) <= reg and bool(self.supp(i) - set(self.step)),
                     all_(*g), fixed=fx, bounds={v: (0, 1) for v in self.bits}, key="iota")
        # the 64 bits are the bits of A''[0,0], as both are boolean sums of the same limb
        x, y = z3.BitVecs("x y", 32)
        s = z3.Solver()
        s.add(x == y, z3.Or(*[z3.Extract(i, i, x) != z3.Extract(i, i, y) for i in range(32)]))
        ch.obligations += 1
        if ch.solve(s) != z3.unsat:
            ch.undecide("uniqueness of bits")

    def links(self, ch):
        self.ch = ch
        reg = set(self.step) | {self.ts, self.ts + self.n} | set(self.out.values()) | {v + self.n for v in self.setA}
        for r in range(23):
            fx = {s: int(i == r) for i, s in enumerate(self.step)}
            only = lambda i: self.supp(i) <= reg
            self.ask(ch, f"permutation: round {r + 1} continues round {r}", {v + self.n for v in self.setA}, only,
                     all_(*[eq(V(self.a[k] + self.n), V(self.out[k])) for k in self.a]), fixed=fx, key="round link")
            self.ask(ch, f"permutation: timestamp of round {r + 1}", {self.ts + self.n}, only, eq(V(self.ts + self.n), V(self.ts)), fixed=fx, key="timestamp")
        # what is looked up: state before round 0, state after round 23, each with the timestamp
        ctls = ch.sys.looked("keccak")
        want = {"inputs": (0, self.a), "outputs": (23, self.out)}
        for nm, (r, m) in want.items():
            tup = [V(m[x, y, h]) for y in range(5) for x in range(5) for h in range(2)] + [V(self.ts)]
            for f in list(range(24)) + [None]:
                fx = {s: int(i == f) for i, s in enumerate(self.step)}
                goals = []
                for c in ctls:
                    l = c["looked_table"]
                    cols = [psub(lin(x), {}) for x in l["columns"]]
                    fv = psub(filt(l["filter"]), {v: pconst(c) for v, c in fx.items()})
                    if cols == tup:
                        goals.append((fv, int(f == r)))
                ok = len(goals) == 1
                if not ok and f is None:
                    ch.violation(f"permutation: the {nm} are not what is looked up", {"ctl": [str(c["looked_table"]["columns"])[:2000] for c in ctls]}, key=f"ctl {nm}")
                for fv, w in goals:
                    s = z3.Solver()
                    s.add((z3.IntVal(field.cval(fv)) if field.isconst(fv) else z3.Int("filter")) != w)
                    ch.obligations += 1
                    if ch.solve(s) != z3.unsat:
                        ch.violation(f"permutation: {nm} are looked up in round {f}", {"filter": str(fv), "round": f}, key=f"filter {nm}")


def xor_z(xs):
    r = xs[0]
    for x in xs[1:]:
        r = z3.Xor(r, x)
    return r


def bred(f, e):
    """squares of boolean columns removed"""
    out = {}
    for m, c in f.items():
        k = []
        for v in m:
            if v not in k or e.bounds(v) != (0, 1):
                k.append(v)
        k = tuple(k)
        out[k] = (out.get(k, 0) + c) % P
    return {m: c for m, c in out.items() if c}


def lin(col, off=0, n=0):
    f = pconst(col["constant"])
    for v, c in col["linear_combination"]:
        f = padd(f, {(v + off,): c % P})
    for v, c in col["next_row_linear_combination"]:
        f = padd(f, {(v + n,): c % P})
    return f


def filt(f):
    r = {}
    for a, b in f["products"]:
        r = padd(r, pmul(lin(a), lin(b)))
    for c in f["constants"]:
        r = padd(r, lin(c))
    return r


class Sponge:
    def __init__(self, ch):
        self.ch = ch
        self.t = ch.sys.table("keccak_sponge")
        self.n = self.t.n
        m = self.m = spongemap(ch.sys)
        self.full, self.pad = m["is_full_input_block"], m["is_padding_byte"]
        self.cls = [self.full] + list(self.pad)
        self.rc = ch.range_checks("keccak_sponge")

    def jobs(self):
        kinds = ["full", "dummy"] + list(range(136))
        js = [("sponge kinds", self.kinds), ("sponge bytes", self.bytes_)]
        for i in range(8):
            js.append((f"sponge rows {i}", lambda ch, ks=kinds[i::8]: [self.row(ch, k) for k in ks] and None))
        return js

    def fixed(self, kind):
        fx = {v: 0 for v in self.cls}
        if kind == "full":
            fx[self.full] = 1
        elif kind != "dummy":
            for v in self.pad[kind:]:
                fx[v] = 1
        return fx

    def cc(self, cond):
        """concrete: property on a row within the range checks"""
        return lambda lv, nv: any(not lo <= lv[v] <= hi or not lo <= nv[v] <= hi for v, (lo, hi) in self.rc.items()) or conc(cond, lv + nv)

    def bnd(self):
        b = dict(self.rc)
        b.update({v + self.n: x for v, x in self.rc.items()})
        return b

    def kinds(self, ch):
        """a row is a full block, a final block or a dummy"""
        S = set(self.cls)
        kw = dict(keep=sorted(S), only=lambda i: ch.within("keccak_sponge", i, S))
        one = lambda v: any_(z(V(v)), eq(V(v), 1))
        g = all_(*[one(v) for v in self.cls], *[impl(eq(V(a), 1), eq(V(b), 1)) for a, b in zip(self.pad, self.pad[1:])],
                 impl(eq(V(self.full), 1), all_(*[z(V(v)) for v in self.pad])))
        for first, last in ((0, 0), (1, 0), (0, 1)):
            ch.ask_row("sponge: kinds of rows", "keccak_sponge", dict(kw, first=first, last=last), lambda e: sym(e, g), lambda lv, nv: conc(g, lv + nv), key="kinds")

    def bytes_(self, ch):
        """bytes are bytes: a word has one decomposition"""
        for nm in ("block_bytes", "updated_digest_state_bytes"):
            for i, v in enumerate(self.m[nm]):
                def within(lv, nv):
                    return lv[v] < 256
                def go(e):
                    return z3.And(e.value(v) >= 0, e.value(v) < 256)
                r = ch.ask_row(f"sponge: {nm}[{i}] is a byte", "keccak_sponge", dict(fixed=self.fixed(0), bounds=self.bnd(), keep=(v,)), go,
                               lambda lv, nv: any(lv[q] > 255 for q in self.rc) or within(lv, nv), key=f"{nm} is a byte")
                if r is False:
                    break

    def row(self, ch, kind):
        m, n = self.m, self.n
        C = lambda nm: V(m[nm])
        L = lambda nm: [V(v) for v in m[nm]]
        N = lambda f: {tuple(v + n for v in mm): c for mm, c in f.items()}
        nm = f"sponge, {kind if isinstance(kind, str) else f'final block of {kind} bytes'}"
        key = kind if isinstance(kind, str) else "final"
        state = L("original_rate_u32s") + L("original_capacity_u32s")
        by, dig = L("block_bytes"), L("updated_digest_state_bytes")
        le = lambda q: padd(padd(q[0], q[1], 1 << 8), padd(pscale(q[2], 1 << 16), q[3], 1 << 24))
        dig32 = [le(dig[4 * i:4 * i + 4]) for i in range(8)]
        after = dig32 + L("partial_updated_state_u32s")
        always, trans, first = [], [], []
        first += [("starts empty", all_(z(C("already_absorbed_bytes")), *[z(x) for x in state]))] if kind != "dummy" else []
        if kind == "full":
            trans.append(("next block continues", all_(*[eq(N(C(x)), C(x)) for x in ("context", "segment", "virt", "timestamp")],
                                                       eq(N(C("already_absorbed_bytes")), padd(C("already_absorbed_bytes"), pconst(136))))))
            trans.append(("next state is the permuted one", all_(*[eq(N(a), b) for a, b in zip(state, after)])))
        elif kind == "dummy":
            # the next row is of some kind ("sponge kinds")
            a, b = N(V(self.full)), N(V(self.pad[-1]))
            trans.append(("dummy rows are at the end", any_(neg(any_(all_(z(a), z(b)), all_(eq(a, 1), z(b)), all_(z(a), eq(b, 1)))), all_(z(a), z(b)))))
        else:
            padv = [0] * 136
            padv[kind] = 1
            padv[135] |= 0x80
            always.append(("padding", all_(*[eq(by[i], padv[i]) for i in range(kind, 136)])))
            trans.append(("next sponge starts empty", all_(z(N(C("already_absorbed_bytes"))), *[z(N(x)) for x in state])))
        fx = self.fixed(kind)
        # lookups: filters under the case, tuples
        fsub = {v: pconst(c) for v, c in fx.items()}
        act = lambda l: psub(filt(l["filter"]), fsub)
        nin = 136 if kind == "full" else 0 if kind == "dummy" else kind
        live = kind != "dummy"
        ts = C("timestamp")
        z8 = [{}] * 7
        looks = {6: [], 3: [], "out": [], 5: [], "cpu": []}
        exp = {}
        exp["memory"] = [[pconst(1), C("context"), C("segment"), padd(padd(C("virt"), C("already_absorbed_bytes")), pconst(i)), by[i]] + z8 + [ts] for i in range(nin)]
        exp["permutation inputs"] = [L("xored_rate_u32s") + L("original_capacity_u32s") + [ts]] if live else []
        exp["permutation outputs"] = [after + [ts]] if live else []
        if live:
            ln = padd(C("already_absorbed_bytes"), pconst(nin))
            be = [padd(padd(pscale(dig[28 - 4 * j], 1 << 24), dig[29 - 4 * j], 1 << 16), padd(pscale(dig[30 - 4 * j], 1 << 8), dig[31 - 4 * j])) for j in range(8)]
            exp["digest"] = [[C("context"), C("segment"), C("virt"), ln, ts] + be] if kind != "full" else []
        else:
            exp["digest"] = []
        got = {"memory": [], "permutation inputs": [], "permutation outputs": [], "digest": [], "xor": []}
        kin = [c for c in ch.sys.looked("keccak")]
        for c in ch.sys.ctls:
            lt = c["looked_table"]["table"]
            for l in c["looking_tables"]:
                if l["table"] != 4:
                    continue
                w = "memory" if lt == 6 else "xor" if lt == 5 else None
                if lt == 3:
                    f = psub(filt(c["looked_table"]["filter"]), {i: pconst(int(i == 0)) for i in range(24)})
                    w = "permutation inputs" if field.isconst(f) and field.cval(f) == 1 else "permutation outputs"
                got[w].append(l)
            if lt == 4:
                got["digest"].append(c["looked_table"])
        canon = lambda t: tuple(tuple(sorted(psub(x, fsub).items())) for x in t)
        for w, ls in got.items():
            vals = []
            for l in ls:
                f = act(l)
                s = z3.Solver()
                s.set("timeout", 10000)
                x = z3.IntVal(field.cval(f)) if field.isconst(f) else z3.Int("filter")
                s.add(z3.And(x != 0, x != 1))
                ch.obligations += 1
                if ch.solve(s) != z3.unsat:
                    ch.violation(f"{nm}: {w} lookup is counted {f} times", {"fixed": fx, "filter": str(f)}, key=f"{key} {w} filter")
                    return
                if field.cval(f) == 1:
                    vals.append([lin(x, 0, n) for x in l["columns"]])
            if w == "xor":
                tr = set()
                ok = True
                for t in vals:
                    ok &= t[0] == pconst(0x18)
                    for j in range(8):
                        tr.add(canon([t[1 + j], t[9 + j], t[17 + j]]))
                tr.discard(canon([{}, {}, {}]))
                want = {canon([V(m["original_rate_u32s"][j]), le(by[4 * j:4 * j + 4]), V(m["xored_rate_u32s"][j])]) for j in range(34)} if live else set()
                ok &= tr == want
            else:
                ok = sorted(canon(t) for t in vals) == sorted(canon(t) for t in exp[w])
            ch.obligations += 1
            if not ok:
                ch.violation(f"{nm}: {w} lookups are not those of the row", {"fixed": fx, "table": "keccak_sponge"}, key=f"{key} {w} tuple")
        ch.paths += 1
        for goals, fi, la in ((always, 0, 0), (always, 1, 0), (always, 0, 1), (trans, 0, 0), (trans, 1, 0), (first, 1, 0)):
            if not goals:
                continue
            kw = dict(fixed=fx, bounds=self.bnd(), first=fi, last=la)
            for gn, g in goals:
                ch.ask_row(f"{nm}{', first row' if fi else ', last row' if la else ''}: {gn}", "keccak_sponge", kw, lambda e: sym(e, g), self.cc(g), key=f"{key}: {gn}")


def spongemap(sys):
    import dbg
    return dbg.parse(dict(sys.info["column_maps"])["keccak_sponge"])
