"""STARK constraints over the Goldilocks field, encoded for z3.

The constraint polynomials come from running the compiled constraint code of /repo on a symbolic field (engine
dump). Under a case (some columns fixed) they are simplified by exact field algebra: products become disjunctions,
affine equations eliminate a column, `f * (f - c)` introduces a boolean. What is left becomes integer arithmetic
(the multiple of p that an expression can be is bounded by its range)."""
import json, os
import z3
import dbg

P = (1 << 64) - (1 << 32) + 1
AUXV = 1 << 40   # booleans introduced by the encoder
INV = lambda a: pow(a, P - 2, P)


def cent(c):
    c %= P
    return c - P if c > P // 2 else c


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = (r.get(m, 0) + k * c) % P
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(a, k):
    k %= P
    return {m: c * k % P for m, c in a.items()} if k else {}


def pmul(a, b):
    if len(a) == 1 and () in a:
        return pscale(b, a[()])
    if len(b) == 1 and () in b:
        return pscale(a, b[()])
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            r[k] = (r.get(k, 0) + c * d) % P
    return {m: c for m, c in r.items() if c}


def pconst(c):
    return {(): c % P} if c % P else {}


def isconst(a):
    return not a or (len(a) == 1 and () in a)


def cval(a):
    return a.get((), 0)


def affine(a):
    return all(len(m) <= 1 for m in a)


def pvars(a):
    return {v for m in a for v in m}


def psub(a, sub):
    """Substitutes variables by polynomials."""
    if not any(v in sub for v in pvars(a)):
        return a
    r = {}
    for m, c in a.items():
        t = {(): c}
        for v in m:
            t = pmul(t, sub[v] if v in sub else {(v,): 1})
        r = padd(r, t)
    return r


def peval(a, env):
    s = 0
    for m, c in a.items():
        for v in m:
            c = c * env[v] % P
        s += c
    return s % P


class Table:
    def __init__(self, d, name):
        j = json.load(open(os.path.join(d, f"stark_{name}.json")))
        self.name, self.n = name, j["columns"]
        self.nodes, self.cons = j["nodes"], j["constraints"]

    def polys(self):
        pass


class Infeasible(Exception):
    pass


def sqrt_mod(a):
    """Square root in the field (Tonelli-Shanks) or None."""
    a %= P
    if a == 0:
        return 0
    if pow(a, (P - 1) // 2, P) != 1:
        return None
    q, s = P - 1, 0
    while q % 2 == 0:
        q //= 2
        s += 1
    z = 7
    m, c, t, r = s, pow(z, q, P), pow(a, q, P), pow(a, (q + 1) // 2, P)
    while t != 1:
        i, t2 = 0, t
        while t2 != 1:
            t2 = t2 * t2 % P
            i += 1
        b = pow(c, 1 << (m - i - 1), P)
        m, c = i, b * b % P
        t, r = t * c % P, r * b % P
    return r


def quad(f):
    """Factors of a polynomial that is quadratic in some column with a constant discriminant: two affine factors, or
    none if it never vanishes. None if it is not of this form."""
    if len(f) > 400 or max(len(m) for m in f) != 2:
        return None
    for m in f:
        if len(m) == 2 and m[0] == m[1]:
            v = m[0]
            break
    else:
        return None
    a, b, c = f[(v, v)], {}, {}
    for m, k in f.items():
        if v not in m:
            c[m] = k
        elif m != (v, v):
            mm = list(m)
            mm.remove(v)
            b[tuple(mm)] = k
    disc = padd(pmul(b, b), pscale(c, 4 * a), -1)
    if not isconst(disc):
        return None
    d = sqrt_mod(cval(disc))
    if d is None:
        return []
    i2 = INV(2 * a)
    f1 = padd({(v,): 1}, pscale(padd(b, pconst(d), -1), i2))
    f2 = padd({(v,): 1}, pscale(padd(b, pconst(d)), i2))
    return [f1] if f1 == f2 else [f1, f2]


class Enc:
    """One case of a table: a pair of rows (local 0..n, next n..2n) with some columns fixed."""

    def __init__(self, table, fixed=None, bounds=None, first=0, last=0, keep=(), only=None, mul_atoms=True, alias=None, lazy=False):
        self.t = table
        self.n = table.n
        self.bnd = dict(bounds or {})
        self.sub = {}
        self.order = []
        self.fixed = dict(fixed or {})
        for v, c in self.fixed.items():
            self.sub[v] = pconst(c)
        for v, f in (alias or {}).items():     # columns assumed equal to a polynomial of other columns
            self.sub[v] = psub(f, self.sub)
        self.keep = set(keep)
        self.special = {-1: 0 if last else 1, -2: 1 if first else 0, -3: 1 if last else 0}
        self.out = []          # z3 constraints
        self.ivars = {}
        self.atoms = {}
        self.nb = 0
        self.ncons = 0
        self.exact = not mul_atoms
        self.lazy = lazy       # bounded columns are eliminated only by equations of at most three terms
        self._build(only)

    # ------------------------------------------------------------ variables
    def bounds(self, v):
        return self.bnd.get(v, (0, P - 1))

    def ivar(self, v):
        if v not in self.ivars:
            x = z3.Int(f"c{v}" if v < AUXV else f"b{v - AUXV}")
            lo, hi = self.bounds(v)
            self.ivars[v] = x
            self.out.append(z3.And(x >= lo, x <= hi))
        return self.ivars[v]

    def newbool(self):
        self.nb += 1
        v = AUXV + self.nb
        self.bnd[v] = (0, 1)
        return v

    def atom(self, m):
        """z3 term of a monomial"""
        if len(m) == 1:
            return self.ivar(m[0])
        if m in self.atoms:
            return self.atoms[m]
        bools = [v for v in m if self.bounds(v) == (0, 1)]
        rest = [v for v in m if self.bounds(v) != (0, 1)]
        if bools:
            c = z3.And(*[self.ivar(v) == 1 for v in set(bools)])
            t = z3.If(c, self.atom(tuple(rest)) if rest else z3.IntVal(1), z3.IntVal(0))
        elif self.exact:
            t = self.ivar(m[0])
            for v in m[1:]:
                t = t * self.ivar(v)
        else:
            t = z3.Int("m_" + "_".join(map(str, m)))
            lo, hi = self.mrange(m)
            self.out.append(z3.And(t >= lo, t <= hi))
            for v in m:
                if self.bounds(v)[0] >= 0:
                    self.out.append(z3.Implies(self.ivar(v) == 0, t == 0))
        self.atoms[m] = t
        return t

    def mrange(self, m):
        lo, hi = 1, 1
        for v in m:
            a, b = self.bounds(v)
            xs = [lo * a, lo * b, hi * a, hi * b]
            lo, hi = min(xs), max(xs)
        return lo, hi

    # ------------------------------------------------------------ polynomials
    def poly(self, i):
        memo = self.memo
        st = [i]
        nodes = self.t.nodes
        while st:
            j = st[-1]
            if j in memo:
                st.pop()
                continue
            nd = nodes[j]
            k = nd[0]
            if k == 0:
                memo[j] = pconst(nd[1])
            elif k == 1:
                v = nd[1]
                memo[j] = pconst(self.special[v]) if v < 0 else (self.sub[v] if v in self.sub else {(v,): 1})
            else:
                todo = [x for x in nd[1:] if x not in memo]
                if todo:
                    st.extend(todo)
                    continue
                a = memo[nd[1]]
                memo[j] = (padd(a, memo[nd[2]]) if k == 2 else padd(a, memo[nd[2]], -1) if k == 3 else
                           pmul(a, memo[nd[2]]) if k == 4 else pscale(a, -1))
            st.pop()
        return memo[i]

    def factors(self, i):
        nd = self.t.nodes[i]
        if nd[0] == 5:
            return self.factors(nd[1])
        if nd[0] == 4:
            a = self.factors(nd[1])
            if any(not f for f in a):
                return [{}]
            return a + self.factors(nd[2])
        return [self.poly(i)]

    def _build(self, only):
        self.memo = {}
        work = []
        for ci, c in enumerate(self.t.cons):
            if only is not None and not only(ci):
                continue
            fs = self.clean(self.factors(c))
            if fs is not None:
                work.append(fs)
        self.ncons = len(work)
        self.memo = None
        self.solve_work(work)

    def clean(self, fs):
        """Simplified factor list; None if trivially satisfied."""
        out = []
        for f in fs:
            if not f:
                return None
            if isconst(f):
                continue
            # common variables
            common = None
            for m in f:
                s = set(m)
                common = s if common is None else common & s
                if not common:
                    break
            if common and len(f) >= 1 and not (len(f) == 1 and len(next(iter(f))) == 1):
                for v in common:
                    out.append({(v,): 1})
                g = {}
                for m, c in f.items():
                    mm = list(m)
                    for v in common:
                        mm.remove(v)
                    g[tuple(mm)] = c
                r = self.clean([g])
                if r is None:
                    return None
                out += r
                continue
            r = quad(f)
            if r is not None:
                out += r
                continue
            out.append(f)
        # drop duplicates (up to scaling)
        uniq, seen = [], set()
        for f in out:
            k = sorted(f.items(), key=str)
            s = INV(k[0][1])
            key = tuple((m, c * s % P) for m, c in k)
            if key not in seen:
                seen.add(key)
                uniq.append(f)
        return uniq

    def prange(self, f):
        lo = hi = 0
        for m, c in f.items():
            c = cent(c)
            if not m:
                lo += c
                hi += c
                continue
            a, b = self.mrange(m)
            lo += min(c * a, c * b)
            hi += max(c * a, c * b)
        return lo, hi

    def best(self, f):
        """f scaled so that its integer range is small."""
        best = None
        cands = {1}
        for c in list(f.values())[:6]:
            cands.add(INV(c))
        for k in (1, 2, 4, 5, 8, 16, 24, 32, 48):
            cands.add(pow(2, k, P))
        for s in cands:
            g = pscale(f, s)
            lo, hi = self.prange(g)
            w = max(abs(lo), abs(hi))
            if best is None or w < best[0]:
                best = (w, g, lo, hi)
        return best[1:]

    def elim(self, f):
        """Uses the affine equation f = 0 to eliminate a column."""
        g, lo, hi = self.best(f)
        small = -P < lo and hi < P
        cand = None
        for m, c in g.items():
            if len(m) != 1:
                continue
            v = m[0]
            a, b = self.bounds(v)
            free = (a, b) == (0, P - 1)
            c1 = abs(cent(c)) == 1
            if not (free or (small and c1 and not (self.lazy and len(g) > 3))):
                continue
            if v in self.keep or (not free and v in self.nonlin and len(g) > 1 + (() in g)):
                continue
            score = (free, c1, v < AUXV, v)
            if cand is None or score > cand[0]:
                cand = (score, v, c, free)
        if cand is None:
            self.deferred.append(f)
            return False
        _, v, c, free = cand
        h = dict(g)
        h.pop((v,))
        e = pscale(h, -INV(c))
        self.sub = {w: psub(q, {v: e}) for w, q in self.sub.items()}
        self.sub[v] = e
        if not free:
            a, b = self.bounds(v)
            self.pending.append((e, a, b))
        return True

    def solve_work(self, work):
        self.pending = []
        self.deferred = []
        work = [w for w in work]
        self.nonlin = {v for fs in work for f in fs for m in f if len(m) > 1 for v in m}
        progress = True
        while progress:
            progress = False
            nxt = []
            for fs in work:
                fs = self.clean([psub(f, self.sub) for f in fs])
                if fs is None:
                    continue
                if not fs:
                    raise Infeasible()
                if len(fs) == 1 and affine(fs[0]):
                    if self.elim(fs[0]):
                        progress = True
                    continue
                if len(fs) == 2 and affine(fs[0]) and affine(fs[1]):
                    c = self.split2(fs[0], fs[1])
                    if c is not None:
                        f, k = c
                        if len(f) == 1 and len(next(iter(f))) == 1:   # a boolean column
                            v = next(iter(f))[0]
                            s = k * INV(f[(v,)]) % P
                            a, b = self.bounds(v)
                            if s == 1:
                                assert v not in self.ivars
                                self.bnd[v] = (max(a, 0), min(b, 1))
                                progress = True
                                continue
                        bv = self.newbool()
                        if self.elim(padd(f, {(bv,): 1}, -k)):
                            progress = True
                        continue
                nxt.append(fs)
            work = nxt
        for f in self.deferred:
            self.emit(psub(f, self.sub))
        for fs in work:
            self.emit_or(fs)
        for e, a, b in self.pending:
            e = psub(e, self.sub)
            t = self.intexpr(e)
            self.out.append(z3.And(t >= a, t <= b))

    def split2(self, f, g):
        """f*g = 0 with f + s*g = k constant, k != 0: then f in {0, k}."""
        vs = [m for m in f if m]
        if not vs or set(vs) != {m for m in g if m}:
            return None
        r = f[vs[0]] * INV(g[vs[0]]) % P
        d = padd(f, g, -r)
        if isconst(d) and d:
            return f, cval(d)
        return None

    # ------------------------------------------------------------ integers
    def intexpr(self, f):
        t = [z3.IntVal(cent(c)) * self.atom(m) if m else z3.IntVal(cent(c)) for m, c in sorted(f.items(), key=str)]
        return z3.Sum(t) if len(t) > 1 else (t[0] if t else z3.IntVal(0))

    def eq0(self, f):
        """z3 formula of f = 0 in the field"""
        if isconst(f):
            return z3.BoolVal(not f)
        g, lo, hi = self.best(f)
        t = self.intexpr(g)
        k0, k1 = -((-lo) // P), hi // P
        if k0 == 0 and k1 == 0:
            return t == 0
        if k1 - k0 <= 4:
            return z3.Or(*[t == k * P for k in range(k0, k1 + 1)])
        self.nb += 1
        k = z3.Int(f"k{self.nb}")
        self.out.append(z3.And(k >= k0, k <= k1))
        return t == k * P

    def emit(self, f):
        self.out.append(self.eq0(f))

    def emit_or(self, fs):
        self.out.append(z3.Or(*[self.eq0(f) for f in fs]) if len(fs) > 1 else self.eq0(fs[0]))

    def value(self, v):
        """Integer value of a column in [0, p)."""
        if v in self.sub:
            return self.canon(self.sub[v])
        return self.ivar(v)

    def canon(self, f):
        """Canonical value in [0, p) of a polynomial."""
        f = psub(f, self.sub)
        if isconst(f):
            return z3.IntVal(cval(f))
        if len(f) == 1:
            (m, c), = f.items()
            if c == 1 and len(m) == 1:
                return self.ivar(m[0])
        g = f
        lo, hi = self.prange(g)
        if 0 <= lo and hi < P:
            return self.intexpr(g)
        self.nb += 1
        x, k = z3.Int(f"v{self.nb}"), z3.Int(f"k{self.nb}")
        self.out.append(z3.And(x >= 0, x < P, self.intexpr(g) == x + k * P))
        return x

    def lin(self, col, base=0):
        """Polynomial of a lookup Column (local row at base)."""
        f = pconst(col["constant"])
        for v, c in col["linear_combination"]:
            f = padd(f, {(v + base,): c % P})
        for v, c in col["next_row_linear_combination"]:
            f = padd(f, {(v + self.n,): c % P})
        return psub(f, self.sub)

    def solver(self, timeout=60000):
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*self.out)
        return s

    def row(self, model):
        """Concrete pair of rows of a model."""
        env = {}
        for v, x in self.ivars.items():
            env[v] = model.eval(x, model_completion=True).as_long()

        def get(v):
            if v in self.sub:
                return peval(self.sub[v], D())
            if v in env:
                return env[v]
            return self.bounds(v)[0]

        class D(dict):
            def __missing__(s, v):
                return get(v)
        r = [get(v) % P for v in range(2 * self.n)]
        return r[:self.n], r[self.n:]


class Sys:
    """All tables, lookups and cross-table lookups of a dump."""

    NAMES = ["arithmetic", "byte_packing", "cpu", "keccak", "keccak_sponge", "logic", "memory", "mem_before", "mem_after"]

    def __init__(self, d):
        self.dir = d
        self.info = json.load(open(os.path.join(d, "info.json")))
        self._t = {}
        self._ctl = None

    def table(self, name):
        if name not in self._t:
            self._t[name] = Table(self.dir, name)
        return self._t[name]

    def lookups(self, name):
        return [dbg.parse(x) for x in self.info["lookups"][name]]

    @property
    def ctls(self):
        if self._ctl is None:
            self._ctl = [dbg.parse(x) for x in self.info["ctls"]]
        return self._ctl

    def looked(self, name):
        """(index, ctl) of the lookups whose looked table is `name`"""
        i = self.NAMES.index(name)
        return [c for c in self.ctls if c["looked_table"]["table"] == i]


def simple(col):
    """Column index if the Column is a single plain column."""
    lc = col["linear_combination"]
    if len(lc) == 1 and lc[0][1] == 1 and not col["next_row_linear_combination"] and col["constant"] == 0:
        return lc[0][0]
    return None
