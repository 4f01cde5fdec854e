"""Symbolic executor for the assembled kernel bytecode (Engine B)."""
import json, os, time
import z3
from ops import *
import ops

MASK32 = (1 << 32) - 1


# ------------------------------------------------------------------ keccak
def _keccak_f(s):
    R = [[0, 36, 3, 41, 18], [1, 44, 10, 45, 2], [62, 6, 43, 15, 61], [28, 55, 25, 21, 56], [27, 20, 39, 8, 14]]
    m = (1 << 64) - 1
    rc = 1
    rot = lambda x, n: ((x << n) | (x >> (64 - n))) & m if n else x
    A = s
    for _ in range(24):
        C = [A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4] for x in range(5)]
        D = [C[(x - 1) % 5] ^ rot(C[(x + 1) % 5], 1) for x in range(5)]
        A = [[A[x][y] ^ D[x] for y in range(5)] for x in range(5)]
        B = [[0] * 5 for _ in range(5)]
        for x in range(5):
            for y in range(5):
                B[y][(2 * x + 3 * y) % 5] = rot(A[x][y], R[x][y])
        A = [[B[x][y] ^ (~B[(x + 1) % 5][y] & B[(x + 2) % 5][y] & m) for y in range(5)] for x in range(5)]
        r = 0
        for j in range(7):
            if rc & 1:
                r |= 1 << ((1 << j) - 1)
            rc = ((rc << 1) ^ (0x171 if rc & 0x80 else 0)) & 0xff if False else (((rc << 1) & 0xff) ^ (0x71 if rc & 0x80 else 0))
        A[0][0] ^= r
    return A


def keccak256(data):
    rate = 136
    A = [[0] * 5 for _ in range(5)]
    p = bytearray(data) + b"\x01" + b"\0" * ((-len(data) - 2) % rate) + b"\x80" if (len(data) + 1) % rate else bytearray(data) + b"\x81"
    for off in range(0, len(p), rate):
        for i in range(rate // 8):
            A[i % 5][i // 5] ^= int.from_bytes(p[off + 8 * i: off + 8 * i + 8], "little")
        A = _keccak_f(A)
    out = b"".join(A[i % 5][i // 5].to_bytes(8, "little") for i in range(4))
    return out


assert keccak256(b"").hex() == "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470"


def keccak_uf(nbytes):
    n = (nbytes + 31) // 32

    def ev(*ws):
        b = b"".join(w.to_bytes(32, "big") for w in ws)
        return int.from_bytes(keccak256(b[:nbytes]), "big")
    return uf(f"keccak_{nbytes}", n, ev)


# ------------------------------------------------------------------ kernel image
class Kernel:
    def __init__(self, d):
        k = json.load(open(os.path.join(d, "kernel.json")))
        self.code = k["code"]
        self.labels = k["global_labels"]
        self.by_pc = {}
        for l in k["ordered_labels"]:
            self.by_pc.setdefault(self.labels[l], l)
        self.prover_inputs = {int(a): b for a, b in k["prover_inputs"].items()}
        info = json.load(open(os.path.join(d, "info.json")))
        self.const = {a: int(b, 16) for a, b in info["constants"].items()}
        self.info = info
        self.seg = {n: i for n, i, _ in info["segments"]}
        self.segbits = {i: b for _, i, b in info["segments"]}
        self.segname = {i: n for n, i, _ in info["segments"]}

    def label(self, n):
        return self.labels[n]

    def near(self, pc):
        best = None
        if not isinstance(pc, int):
            return "user"
        for l, p in self.labels.items():
            if p <= pc and (best is None or p > best[1]):
                best = (l, p)
        return f"{best[0]}+{pc - best[1]}" if best else str(pc)

    def syscall(self, opcode):
        t = self.labels["syscall_jumptable"] + 3 * opcode
        return int.from_bytes(bytes(self.code[t:t + 3]), "big")

    def exc(self, code):
        t = self.labels["exception_jumptable"] + 3 * code
        return int.from_bytes(bytes(self.code[t:t + 3]), "big")


# ------------------------------------------------------------------ memory
def b8(t):
    """8-bit term of a byte value"""
    if isint(t):
        return z3.BitVecVal(t & 255, 8)
    if z3.is_app_of(t, z3.Z3_OP_ZERO_EXT) and t.arg(0).size() == 8:
        return t.arg(0)
    return z3.Extract(7, 0, t)


def byte_of(val, k):
    """byte k (0 = least significant) of a 256-bit value"""
    if isint(val):
        return (val >> (8 * k)) & 255
    return norm(z3.simplify(z3.ZeroExt(248, z3.Extract(8 * k + 7, 8 * k, val))))


class Seg:
    __slots__ = ("base", "layers", "own")

    def __init__(self, base=None):
        self.base = base          # callable virt(int or 32-bit term) -> value, or None (zero)
        self.layers = [{}]        # dict | (virt term, value)

    def copy(self):
        s = Seg(self.base)
        s.layers = list(self.layers)
        s.layers[-1] = dict(s.layers[-1])
        return s

    def write(self, v, val):
        if isint(v):
            self.layers[-1][v] = val
        else:
            self.layers.append((v, val))
            self.layers.append({})

    def read(self, v):
        # from the top
        acc = []  # (cond, val)
        res = None
        for L in reversed(self.layers):
            if isinstance(L, dict):
                if isint(v):
                    if v in L:
                        res = L[v]
                        break
                else:
                    for a, val in L.items():
                        acc.append((v == a, val))
            else:
                a, val = L
                vv = z3.BitVecVal(v, 32) if isint(v) else v
                d = z3.simplify(a - vv)
                if z3.is_bv_value(d):
                    if d.as_long() == 0:
                        res = val
                        break
                else:
                    acc.append((a == vv, val))
        if res is None:
            res = self.base(v) if self.base else 0
        for c, val in reversed(acc):
            res = z3.If(c, bv(val), bv(res))
        return norm(res)


def func_base(name, bits):
    """Free memory content: an uninterpreted function virt -> value of `bits` bits."""
    f = z3.Function(name, z3.BitVecSort(32), z3.BitVecSort(bits))

    def base(v):
        t = f(z3.BitVecVal(v, 32) if isint(v) else v)
        return t if bits == 256 else z3.ZeroExt(256 - bits, t)
    base.func = f
    base.name = name
    return base


class State:
    __slots__ = ("pc", "ctx", "gas", "stack", "mem", "conds", "prover", "touched", "trail", "status", "err", "known", "kernel", "notes", "nst")

    def __init__(self):
        self.pc = 0
        self.ctx = 0
        self.gas = 0
        self.kernel = True
        self.stack = []
        self.mem = {}
        self.conds = []
        self.prover = []
        self.touched = []
        self.trail = []
        self.status = None
        self.err = None
        self.known = {}
        self.notes = {}
        self.nst = 0

    def clone(self):
        s = State()
        s.pc, s.ctx, s.gas, s.kernel = self.pc, self.ctx, self.gas, self.kernel
        s.stack = list(self.stack)
        s.mem = {k: v.copy() for k, v in self.mem.items()}
        s.conds = list(self.conds)
        s.prover = list(self.prover)
        s.touched = list(self.touched)
        s.trail = list(self.trail)
        s.known = dict(self.known)
        s.notes = dict(self.notes)
        s.nst = self.nst
        return s

    def seg(self, ctx, seg):
        k = (ctx, seg)
        s = self.mem.get(k)
        if s is None:
            s = self.mem[k] = Seg()
        return s

    def rd(self, ctx, seg, v):
        self.touched.append((ctx, seg, v))
        return self.seg(ctx, seg).read(v)

    def wr(self, ctx, seg, v, val):
        self.touched.append((ctx, seg, v))
        self.seg(ctx, seg).write(v, val)

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                self.conds.append(z3.BoolVal(False))
            return
        self.conds.append(c)


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.paths = 0
        self.steps = 0
        self.forks = 0
        self.unknown = 0


class Limit(Exception):
    pass


class Exec:
    """Explores all paths from a state. `halts`: set of pcs that end a path; value = status name."""

    def __init__(self, kernel, halts=None, max_steps=200000, max_paths=4000, feas_timeout=4000, stop_user=True, hooks=None, prover_hook=None):
        self.k = kernel
        self.code = kernel.code
        self.halts = dict(halts or {})
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.stop_user = stop_user
        self.hooks = hooks or {}
        self.prover_hook = prover_hook
        self.stats = Stats()
        self.solver = z3.Solver()
        self.solver.set("timeout", feas_timeout)
        self.pushed = []
        self.fresh = 0
        self.seg_code = kernel.seg["Code"]
        self.seg_stack = kernel.seg["Stack"]
        self.seg_cm = kernel.seg["ContextMetadata"]
        self.sp_field = kernel.const["CTX_METADATA_STACK_SIZE"] & MASK32
        self.deadline = None

    # ---------------------------------------------------------- solver
    def sync(self, st):
        n = 0
        for a, b in zip(self.pushed, st.conds):
            if not a.eq(b):
                break
            n += 1
        for _ in range(len(self.pushed) - n):
            self.solver.pop()
        del self.pushed[n:]
        for c in st.conds[n:]:
            self.solver.push()
            self.solver.add(c)
            self.pushed.append(c)

    def check(self, st, *extra):
        """'sat' / 'unsat' / 'unknown' of path condition + extra"""
        ex = [e for e in extra if not (isinstance(e, bool) and e)]
        if any(isinstance(e, bool) for e in ex):
            return "unsat"
        self.sync(st)
        t = time.time()
        r = self.solver.check(*ex)
        self.stats.queries += 1
        self.stats.time += time.time() - t
        if r == z3.unknown:
            self.stats.unknown += 1
        if self.deadline and time.time() > self.deadline:
            raise Limit("deadline")
        return str(r)

    def feasible(self, st, c):
        return self.check(st, c) != "unsat"

    def model(self, st, *extra):
        if self.check(st, *extra) != "sat":
            return None
        return self.solver.model()

    def values(self, st, t, limit=64, extra=()):
        """All values of a term under the path condition (list), or None if more than limit / unknown."""
        t = simp(t)
        if isint(t):
            return [t]
        key = t.get_id()
        if key in st.known and not extra:
            return [st.known[key][1]]
        out = []
        self.sync(st)
        self.solver.push()
        try:
            for e in extra:
                self.solver.add(e)
            while True:
                t0 = time.time()
                r = self.solver.check()
                self.stats.queries += 1
                self.stats.time += time.time() - t0
                if r == z3.unsat:
                    break
                sv = self.solver
                if r == z3.unknown:   # once more, without the incremental state and with more time
                    sv = z3.Solver()
                    sv.set("timeout", 60000)
                    sv.add(*self.solver.assertions())
                    r = sv.check()
                    if r == z3.unsat:
                        break
                if r != z3.sat or len(out) >= limit:
                    return None
                v = sv.model().eval(t, model_completion=True).as_long()
                out.append(v)
                self.solver.add(t != v)
        finally:
            self.solver.pop()
        if len(out) == 1 and not extra:
            st.known[key] = (t, out[0])
        return out

    def newsym(self, name, w=256):
        self.fresh += 1
        return z3.BitVec(f"{name}!{self.fresh}", w)

    # ---------------------------------------------------------- running
    def run(self, st0):
        """Returns the list of terminal states."""
        work = [st0]
        done = []
        while work:
            st = work.pop()
            if len(done) + len(work) > self.max_paths:
                raise Limit(f"more than {self.max_paths} paths (at {self.k.near(st.pc)})")
            while st.status is None:
                new = self.step(st)
                self.stats.steps += 1
                st.nst += 1
                if new is not None:
                    self.stats.forks += 1
                    work.extend(new)
                    st = None
                    break
                if st.nst > self.max_steps:
                    st.status = "limit"
            if st is not None:
                done.append(st)
                self.stats.paths += 1
        return done

    def end(self, st, status, err=None):
        st.status = status
        st.err = err

    def goto(self, st, dst):
        st.pc = dst
        if dst in self.halts:
            self.end(st, self.halts[dst])

    def addr(self, st, a):
        """-> (ctx, seg, virt) with concrete ctx/seg, or forks: ('fork', [states conds])"""
        if isint(a):
            return (a >> 64) & MASK32, (a >> 32) & MASK32, a & MASK32
        virt = simp(z3.Extract(31, 0, a))
        hi = simp(z3.Extract(95, 32, a))
        if not isint(hi):
            vs = self.values(st, hi, limit=6)
            if vs is None:
                return None
            if len(vs) != 1:
                return ("fork", [z3.simplify(hi == v) for v in vs])
            hi = vs[0]
        return hi >> 32, hi & MASK32, virt

    def memread(self, st, ctx, seg, v):
        if ctx == 0 and seg == self.seg_code:
            if isint(v):
                return self.code[v] if v < len(self.code) else 0
            return self.codetable(st, v)
        r = st.rd(ctx, seg, v)
        return r

    def codetable(self, st, v):
        """Kernel code at a symbolic address: the range of the address, then one case per run of equal bytes."""
        v0 = self.values_one(st, v)
        lo, hi = v0, v0
        w = 1
        while True:   # doubling search for bounds; the range is at most a table of 1024 bytes
            out = z3.Or(z3.ULT(v, max(v0 - w, 0)), z3.UGT(v, v0 + w))
            if self.check(st, out) == "unsat":
                lo, hi = max(v0 - w, 0), v0 + w
                break
            w *= 2
            if w > 1024:
                raise Limit("unbounded symbolic read of kernel code at " + self.k.near(st.pc))

        def edge(good, bad):   # binary search of the exact bound
            while abs(good - bad) > 1:
                m = (good + bad) // 2
                c = z3.ULT(v, m) if good < bad else z3.UGT(v, m)
                if self.check(st, c) == "unsat":
                    good = m
                else:
                    bad = m
            return good
        if lo < v0 and self.check(st, z3.ULT(v, lo + 1)) == "unsat":
            lo = edge(lo, v0 + 1)
        if hi > v0 and self.check(st, z3.UGT(v, hi - 1)) == "unsat":
            hi = edge(hi, v0 - 1)
        at = lambda x: self.code[x] if x < len(self.code) else 0
        runs = []
        for x in range(lo, hi + 1):
            if not runs or runs[-1][1] != at(x):
                runs.append([x, at(x)])
        r = bv(runs[0][1])
        for x, b in runs[1:]:
            r = z3.If(z3.UGE(v, x), bv(b), r)
        return norm(z3.simplify(r)) if len(runs) < 2 else norm(r)

    def values_one(self, st, t):
        self.sync(st)
        r = self.solver.check()
        self.stats.queries += 1
        if r != z3.sat:
            raise Limit("no value for an address at " + self.k.near(st.pc))
        return self.solver.model().eval(t, model_completion=True).as_long()

    def forkon(self, st, conds):
        out = []
        for c in conds:
            s = st.clone()
            s.assume(c)
            out.append(s)
        return out

    def step(self, st):
        pc = st.pc
        code = self.code
        if pc >= len(code):
            return self.end(st, "error", "pc out of code")
        if pc in self.hooks:
            r = self.hooks[pc](self, st)
            if r is not None or st.status is not None or st.pc != pc:
                return r if isinstance(r, list) else None
        op = code[pc]
        S = st.stack
        npc = pc + 1
        try:
            if 0x5f <= op <= 0x7f:
                n = op - 0x5f
                S.append(int.from_bytes(bytes(code[pc + 1: pc + 1 + n]), "big"))
                return self.goto(st, pc + 1 + n)
            if 0x80 <= op <= 0x8f:
                S.append(S[-(op - 0x7f)] if len(S) >= op - 0x7f else self._under())
            elif 0x90 <= op <= 0x9f:
                n = op - 0x8f
                if len(S) < n + 1:
                    self._under()
                S[-1], S[-1 - n] = S[-1 - n], S[-1]
            elif op == 0x50:
                S.pop()
            elif op == 0x56:
                d = S.pop()
                return self.jump(st, d)
            elif op == 0x57:
                d = S.pop()
                c = nz(S.pop())
                if not isinstance(c, bool):
                    c = z3.simplify(c)
                    if z3.is_true(c):
                        c = True
                    elif z3.is_false(c):
                        c = False
                if isinstance(c, bool):
                    if c:
                        return self.jump(st, d)
                    return self.goto(st, npc)
                nc = z3.simplify(z3.Not(c))
                ft, ff = self.feasible(st, c), None
                if not ft:
                    ff = True
                else:
                    ff = self.feasible(st, nc)
                if ft and ff:
                    a, b = st.clone(), st
                    b = st.clone()
                    a.assume(c)
                    b.assume(nc)
                    a.trail.append((pc, 1))
                    b.trail.append((pc, 0))
                    self.goto(b, npc)
                    r = self.jump(a, d)
                    return (r if r is not None else [a]) + [b]
                if ft:
                    return self.jump(st, d)
                return self.goto(st, npc)
            elif op in BIN:
                a = S.pop()
                b = S.pop()
                S.append(norm(BIN[op](a, b)))
            elif op in TER:
                a, b, n = S.pop(), S.pop(), S.pop()
                S.append(norm(TER[op](a, b, n)))
            elif op == 0x15:
                S.append(norm(iszero(S.pop())))
            elif op == 0x19:
                S.append(norm(not_(S.pop())))
            elif op == 0x5b:
                pass
            elif op == 0x58:
                S.append(pc)
            elif op == 0xfb:
                r = self.addr(st, S[-1])
                if r is None:
                    return self.wild(st)
                if r[0] == "fork":
                    return self.forkon(st, r[1])
                if r[1] not in self.k.segbits:
                    return self.end(st, "error", "segment too large")
                S.pop()
                S.append(norm(self.memread(st, *r)))
            elif op == 0xfc:
                # stack: value (top), address
                r = self.addr(st, S[-2])
                if r is None:
                    return self.wild(st)
                if r[0] == "fork":
                    return self.forkon(st, r[1])
                if r[1] not in self.k.segbits:
                    return self.end(st, "error", "segment too large")
                v = S.pop()
                S.pop()
                st.wr(*r, v)
            elif op == 0xf8:
                n = S[-2]
                if not isint(n):
                    vs = self.values(st, n, limit=40)
                    if vs is None:
                        return self.wild(st)
                    if len(vs) > 1:
                        return self.forkon(st, [bv(n) == x for x in vs])
                    n = vs[0]
                if n > 32:
                    return self.end(st, "error", "mload len")
                r = self.addr(st, S[-1])
                if r is None:
                    return self.wild(st)
                if r[0] == "fork":
                    return self.forkon(st, r[1])
                S.pop()
                S.pop()
                S.append(self.load_bytes(st, *r, n))
            elif 0xc0 <= op <= 0xdf:
                n = op - 0xc0 + 1
                r = self.addr(st, S[-1])
                if r is None:
                    return self.wild(st)
                if r[0] == "fork":
                    return self.forkon(st, r[1])
                val = S[-2]
                if n < 32:
                    if isint(val):
                        if val >> (8 * n):
                            return self.end(st, "error", "mstore_32bytes value too large")
                    else:
                        top = z3.simplify(z3.Extract(255, 8 * n, val) == 0)
                        if not z3.is_true(top):
                            if self.feasible(st, z3.Not(top)):
                                a, b = st.clone(), st.clone()
                                a.assume(top)
                                b.assume(z3.Not(top))
                                self.end(b, "error", "mstore_32bytes value too large")
                                if not self.feasible(st, top):
                                    return [b]
                                return [a, b]
                a = S.pop()
                S.pop()
                S.append(norm(add(a, n)))
                ctx, seg, v = r
                for i in range(n):
                    vi = (v + i) if isint(v) else norm(z3.simplify(v + i))
                    st.wr(ctx, seg, vi, byte_of(val, n - 1 - i))
            elif op == 0x21:
                n = S[-2]
                if not isint(n):
                    vs = self.values(st, n, limit=80)
                    if vs is None:
                        return self.wild(st)
                    if len(vs) > 1:
                        return self.forkon(st, [bv(n) == x for x in vs])
                    n = vs[0]
                r = self.addr(st, S[-1])
                if r is None:
                    return self.wild(st)
                if r[0] == "fork":
                    return self.forkon(st, r[1])
                S.pop()
                S.pop()
                S.append(self.keccak(st, r, n))
            elif op == 0xee:
                fn = self.k.prover_inputs[pc]
                if self.prover_hook:
                    v = self.prover_hook(self, st, fn)
                else:
                    v = self.newsym("prover")
                st.prover.append((pc, v))
                S.append(v)
            elif op == 0xa5:
                return self.end(st, "panic")
            elif op == 0xf9:
                info = S.pop()
                return self.exit_kernel(st, info)
            elif op == 0xf6:
                S.append(st.ctx << 64)
            elif op == 0xf7:
                c = simp(S[-1])
                if not isint(c):
                    vs = self.values(st, c, limit=8)
                    if vs is None:
                        return self.wild(st)
                    if len(vs) > 1:
                        return self.forkon(st, [bv(c) == x for x in vs])
                    c = vs[0]
                S.pop()
                return self.set_context(st, c, npc)
            else:
                return self.end(st, "error", f"opcode {op:#x} in kernel")
        except IndexError:
            return self.end(st, "error", "stack underflow")
        return self.goto(st, npc)

    def _under(self):
        raise IndexError

    def wild(self, st):
        return self.end(st, "wild", "unresolved address/length at " + self.k.near(st.pc))

    def jump(self, st, d):
        d = simp(d)
        if not isint(d):
            vs = self.values(st, d, limit=16)
            if vs is None:
                return self.end(st, "wild", "unresolved jump")
            if len(vs) > 1:
                out = []
                for x in vs:
                    s = st.clone()
                    s.assume(d == x)
                    self.goto(s, x)
                    out.append(s)
                return out
            d = vs[0]
        if d > MASK32:
            return self.end(st, "error", "jump too far")
        return self.goto(st, d)

    def load_bytes(self, st, ctx, seg, v, n):
        bs = []
        for i in range(n):
            vi = (v + i) if isint(v) else norm(z3.simplify(v + i))
            bs.append(self.memread(st, ctx, seg, vi))
        return pack_bytes(bs)

    def keccak(self, st, r, n):
        ctx, seg, v = r
        bs = [self.memread(st, ctx, seg, (v + i) if isint(v) else norm(z3.simplify(v + i))) for i in range(n)]
        return keccak_bytes(bs)

    def exit_kernel(self, st, info):
        pcv = simp(info & MASK32 if isint(info) else z3.Extract(31, 0, info))
        ker = simp((info >> 32) & MASK32 if isint(info) else z3.Extract(63, 32, info))
        st.gas = simp(info >> 192 if isint(info) else z3.ZeroExt(192, z3.Extract(255, 192, info)))
        if not isint(ker):
            vs = self.values(st, ker, limit=4)
            if vs is None or len(vs) != 1:
                return self.wild(st)
            ker = vs[0]
        st.notes["kexit"] = info
        if ker == 0:
            st.pc = pcv
            st.kernel = False
            if self.stop_user:
                return self.end(st, "user")
            raise NotImplementedError
        if ker != 1:
            return self.end(st, "error", "bad kernel flag")
        return self.jump(st, pcv if isint(pcv) else z3.ZeroExt(224, pcv))

    def save_stack(self, st):
        for i, x in enumerate(st.stack):
            st.seg(st.ctx, self.seg_stack).write(i, x)

    def set_context(self, st, c, npc):
        new = c >> 64
        st.notes.setdefault("set_context", []).append((st.ctx, c)) if False else None
        if c & 1:
            st.notes["pruned"] = st.notes.get("pruned", ()) + (st.ctx,)
        st.wr(st.ctx, self.seg_cm, self.sp_field, len(st.stack))
        self.save_stack(st)
        sp = simp(st.rd(new, self.seg_cm, self.sp_field))
        if not isint(sp):
            return self.wild(st)
        st.ctx = new
        st.stack = [st.rd(new, self.seg_stack, i) for i in range(sp)]
        return self.goto(st, npc)


def pack_bytes(bs):
    """big-endian value of a list of at most 32 byte values"""
    if all(isint(b) for b in bs):
        return int.from_bytes(bytes(b & 255 for b in bs), "big")
    if not bs:
        return 0
    parts = [b8(b) for b in bs]
    t = z3.Concat(*parts) if len(parts) > 1 else parts[0]
    w = t.size()
    if w < 256:
        t = z3.ZeroExt(256 - w, t)
    return simp(t)


def keccak_bytes(bs):
    if all(isint(b) for b in bs):
        return int.from_bytes(keccak256(bytes(b & 255 for b in bs)), "big")
    ws = []
    for i in range(0, len(bs), 32):
        ch = list(bs[i:i + 32])
        ch += [0] * (32 - len(ch))
        ws.append(bv(pack_bytes(ch)))
    return keccak_uf(len(bs))(*ws)


BIN = {0x01: add, 0x02: mul, 0x03: sub, 0x04: div, 0x06: mod, 0x10: lt, 0x11: gt, 0x14: eq, 0x16: and_, 0x17: or_, 0x18: xor,
       0x1a: byte, 0x1b: shl, 0x1c: shr,
       0x0c: lambda a, b: ops.addmod(a, b, BN_BASE), 0x0d: lambda a, b: ops.mulmod(a, b, BN_BASE), 0x0e: lambda a, b: ops.submod(a, b, BN_BASE)}
TER = {0x08: lambda a, b, n: ops.addmod(a, b, n), 0x09: lambda a, b, n: ops.mulmod(a, b, n), 0x0f: lambda a, b, n: ops.submod(a, b, n)}
