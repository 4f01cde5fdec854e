"""Accounts in the kernel's state: a sorted account list with the payloads in TrieData; shared by C21 and C24."""
from klist import *
from ksym import keccak_bytes, byte_of
import itertools


def kec(x, n):
    return bv(keccak_bytes([byte_of(x, n - 1 - i) for i in range(n)]))


EMPTY_CODE = 0xc5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470
TDLEN = 60


class Accounts:
    """names: accounts in the order of their hashed keys, as (name, address term, exists)"""

    def __init__(self, ch, st, names):
        self.ch, self.k, self.st = ch, ch.k, st
        k = ch.k
        self.TD, self.GM = k.seg["TrieData"], k.seg["GlobalMetadata"]
        self.addr = {n: a for n, a, _ in names}
        self.key = {n: kec(a, 20) for n, a, _ in names}
        self.names = [n for n, _, _ in names]
        live = [n for n, _, e in names if e]
        n0 = len(st.conds)
        L = self.L = KList(k, st, "AccountsLinkedList", 4, 1, 3, range(1, len(live) + 1), [], name="ac")
        del st.conds[n0:]
        self.node = {n: i + 1 for i, n in enumerate(live)}
        self.td = {}
        for n, i in self.node.items():
            L.keys[i] = [self.key[n]]
            L.mem[4 * i] = self.key[n]
            L.mem[4 * i + 1] = self.ptr(n)
            for j, f in enumerate(("nonce", "balance", "root", "code")):
                self.td[self.ptr(n) + j] = z3.BitVec(f"{f}_{n}", 256)
        for a, v in L.mem.items():
            st.seg(0, L.seg).write(a, v)
        for a, v in self.td.items():
            st.seg(0, self.TD).write(a, v)
        for a, b in zip(self.names, self.names[1:]):
            st.assume(z3.ULT(self.key[a], self.key[b]))
        for n in self.names:
            st.assume(self.key[n] != U256)
        self.g("ACCOUNTS_LINKED_LIST_NEXT_AVAILABLE", L.end)
        self.g("TRIE_DATA_SIZE", TDLEN)

    def g(self, f, v):
        self.st.seg(0, self.GM).write(self.k.const["GLOBAL_METADATA_" + f] & MASK32, v)

    def gr(self, f, name):
        return bv(f.rd(0, self.GM, self.k.const["GLOBAL_METADATA_" + name] & MASK32))

    def ptr(self, n):
        return 4 + 8 * self.names.index(n)

    def field(self, n, j):
        return self.td[self.ptr(n) + j]

    def hint(self, n, exact=True):
        """node of account n, or its predecessor"""
        if exact and n in self.node:
            return self.L.hint(self.node[n])
        p = [self.node[m] for m in self.names[:self.names.index(n)] if m in self.node]
        return self.L.hint(p[-1] if p else 0)

    def data(self, f, changes):
        """obligations: account data after the changes {virt: value}"""
        want = dict(self.td)
        want.update(changes)
        obs = []
        for a, v in sorted(want.items()):
            obs.append((f"account data {a}", bv(f.rd(0, self.TD, a)) == v))
        return obs
