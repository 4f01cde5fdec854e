"""Sorted linked lists of the kernel with a predecessor hint (access lists, accounts, storage slots): shared by C18, C19 and others."""
from fw import *

U256 = (1 << 256) - 1


def lexlt(a, b):
    """strict lexicographic order of two key tuples"""
    r = z3.BoolVal(False)
    for x, y in reversed(list(zip(a, b))):
        r = z3.Or(z3.ULT(bv(x), bv(y)), z3.And(bv(x) == bv(y), r))
    return r


def same(a, b):
    return z3.And(*[bv(x) == bv(y) for x, y in zip(a, b)])


class KList:
    """order: logical order of the physical nodes 1..n (0 is the sentinel); dead: physical numbers of deleted nodes."""

    def __init__(self, k, st, segname, stride, nkeys, nxt, order, dead=(), keybits=None, name="k", cap=None):
        self.k, self.seg, self.stride, self.nkeys, self.nxt = k, k.seg[segname], stride, nkeys, nxt
        self.order, self.dead = list(order), list(dead)
        self.n = len(self.order) + len(self.dead)
        self.base = self.seg << 32
        self.keybits = keybits or [256] * nkeys
        self.keys = {0: [U256] * nkeys}
        self.mem = {}
        for i in range(1, self.n + 1):
            self.keys[i] = [z3.ZeroExt(256 - w, z3.BitVec(f"{name}{i}_{j}", w)) if w < 256 else z3.BitVec(f"{name}{i}_{j}", 256) for j, w in enumerate(self.keybits)]
        seq = [0] + self.order + [0]
        self.next = {a: b for a, b in zip(seq, seq[1:])}
        for i in range(self.n + 1):
            for j in range(stride):
                if j < nkeys:
                    v = self.keys[i][j] if i or j == 0 else z3.BitVec(f"{name}_s{j}", 256)
                elif j == nxt:
                    v = U256 if i in self.dead else self.ptr(self.next[i])
                else:
                    v = z3.BitVec(f"{name}{i}_f{j}", 256)
                self.mem[i * stride + j] = v
        self.keys[0] = [U256] + [self.mem[j] for j in range(1, nkeys)]
        for a, v in self.mem.items():
            st.seg(0, self.seg).write(a, v)
        for a, b in zip(self.order, self.order[1:]):
            st.assume(lexlt(self.keys[a], self.keys[b]))
        for i in range(1, self.n + 1):
            if self.keybits[0] == 256:
                st.assume(self.keys[i][0] != U256)
        self.len = (self.n + 1) * stride
        self.end = self.base + self.len

    def ptr(self, i):
        return self.base + i * self.stride

    def member(self, key):
        return z3.Or(*[same(self.keys[i], key) for i in self.order]) if self.order else z3.BoolVal(False)

    def pred(self, key):
        """pairs (condition, node): node is the last live node (or the sentinel) whose key is smaller than key"""
        out = []
        seq = [0] + self.order
        for i in seq:
            lo = z3.BoolVal(True) if i == 0 else lexlt(self.keys[i], key)
            nx = self.next[i]
            hi = z3.BoolVal(True) if nx == 0 else z3.Not(lexlt(self.keys[nx], key))
            out.append((z3.And(lo, hi), i))
        return out

    def hint(self, i):
        """what a prover hints for node i"""
        return i if self.stride == 5 else self.ptr(i) // self.stride

    def honest(self, key, exact=True):
        """the hint of an honest prover: the node itself (exact), else its predecessor"""
        r = z3.BitVecVal(self.hint(0), 256)
        for c, i in self.pred(key):
            r = z3.If(c, z3.BitVecVal(self.hint(i), 256), r)
        if exact:
            for i in self.order:
                r = z3.If(same(self.keys[i], key), z3.BitVecVal(self.hint(i), 256), r)
        return r

    def content(self, rd, changes, q, skip=()):
        """obligations: the words of the list after the changes, and nothing beyond them"""
        top = self.len + self.stride
        obs = []
        for i in range(self.n + 2):
            cs = []
            for j in range(self.stride):
                a = i * self.stride + j
                if a in skip:
                    continue
                e = bv(self.mem.get(a, 0))
                for c, b, v in changes:
                    if a == b:
                        e = z3.If(c, bv(v), e)
                cs.append(bv(rd(a)) == e)
            obs.append((f"content of node {i}", z3.And(*cs)))
        obs.append(("content beyond the list", z3.Implies(z3.UGE(q, top), bv(rd(q)) == 0)))
        return obs

    def expect(self, q, changes):
        """content at virtual address q (32 bits) after the changes (list of (condition, virt, value)), the last one wins"""
        r = z3.BitVecVal(0, 256)
        for a, v in self.mem.items():
            r = z3.If(q == a, bv(v), r)
        for c, a, v in changes:
            r = z3.If(z3.And(c, q == a), bv(v), r)
        return r

    def inserted(self, key, fields):
        """changes made by inserting key; fields: offset -> value of the remaining words"""
        new = (self.n + 1) * self.stride
        mem = self.member(key)
        ch = []
        for c, i in self.pred(key):
            cc = z3.And(c, z3.Not(mem))
            ch.append((cc, i * self.stride + self.nxt, self.base + new))
            ch.append((cc, new + self.nxt, self.ptr(self.next[i])))
        nm = z3.Not(mem)
        for j, x in enumerate(key):
            ch.append((nm, new + j, x))
        for j, x in fields.items():
            ch.append((nm, new + j, x))
        return ch

    def removed(self, key):
        ch = []
        for c, i in self.pred(key):
            nx = self.next[i]
            if nx:
                cc = same(self.keys[nx], key)
                ch.append((cc, i * self.stride + self.nxt, self.ptr(self.next[nx])))
                ch.append((cc, nx * self.stride + self.nxt, U256))
        return ch


def shapes(n, dead):
    """physical layouts: logical orders of n live nodes and `dead` deleted ones in any physical position"""
    import itertools
    for ds in itertools.combinations(range(1, n + dead + 1), dead):
        live = [i for i in range(1, n + dead + 1) if i not in ds]
        for o in itertools.permutations(live):
            yield list(o), list(ds)
