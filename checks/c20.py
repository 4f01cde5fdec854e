"""C20: jump destination analysis; also the code model used by C17."""
from fw import *

B = z3.BitVecVal


def code_bytes(name, n):
    return [z3.BitVec(f"{name}{i}", 8) for i in range(n)]


def set_code(y, ctx, bs, base=0):
    sg = y.seg(ctx, 0)
    for i, b in enumerate(bs):
        sg.write(base + i, z3.ZeroExt(248, b) if not isint(b) else b)


def boundaries(bs):
    """start[j]: position j holds an instruction (not push data) of a code that begins with bs."""
    n = len(bs)
    start = [z3.BoolVal(True)]
    covered = []
    for j in range(n):
        # length of the push data of the instruction at j
        b = bs[j]
        covered.append((z3.And(z3.UGE(b, 0x60), z3.ULE(b, 0x7f)), b - 0x5f) if not isint(b) else (0x60 <= b <= 0x7f, b - 0x5f))
        pos = j + 1
        conds = []
        for i in range(max(0, pos - 33), pos):
            isp, ln = covered[i]
            if isint(bs[i]):
                nxt = pos == i + 1 + (ln if isp else 0)
                if nxt:
                    conds.append(start[i])
                continue
            if pos == i + 1:
                conds.append(z3.And(start[i], z3.Not(isp)))
            else:
                conds.append(z3.And(start[i], isp, ln == pos - i - 1))
        start.append(z3.Or(*conds) if conds else z3.BoolVal(False))
    return start


def valid_jump(bs, d, base=0):
    """d (a bit-vector of any width) is the position of a JUMPDEST instruction of the code (zero outside the window)."""
    st = boundaries(bs)
    return z3.Or(*[z3.And(d == base + j, st[j], (bs[j] == 0x5b) if not isint(bs[j]) else z3.BoolVal(bs[j] == 0x5b)) for j in range(len(bs))])


def probe_obs(fin, k, ctx, bs, q, exact=None):
    bit = bv(fin.rd(ctx, k.seg["JumpdestBits"], q))
    ok = valid_jump(bs, q)
    obs = [("only JUMPDEST instructions are marked", z3.Implies(bit != 0, z3.And(ok, z3.ULT(q, len(bs)))))]
    if exact is not None:
        obs.append(("the position asked for is marked if it is a JUMPDEST instruction", z3.Implies(z3.And(q == exact, ok), bit == 1)))
    return obs


CTX = 3
NEAR = "verify_non_jumpdest: a valid target whose hint lies within the 32 bytes below it stays unmarked"


def near_hint(p, d):
    return z3.And(p != 0, z3.ULE(p, d), z3.UGT(p + 32, d))




def start(ch, label, stack):
    st = State()
    st.pc = ch.k.label(label)
    st.ctx = CTX
    st.stack = stack
    return st


def run(tier):
    ch = KCheck("C20", tier)
    ch.functions = ["kernel bytecode of jumpdest_analysis, verify_non_jumpdest, write_table_if_jumpdest and verify_path_and_write_jumpdest_table (core/jumpdest_analysis.asm)"]
    small = range(1, 8 if ch.thorough else 6)
    pres = [1, 2, 3] if ch.thorough else [1, 2]
    tail = 4 if ch.thorough else 2
    ch.bound(f"every code of {min(small)}..{max(small)} bytes with every 256-bit table entry and every proof below 2^20; codes of up to {32 + max(pres) + tail} bytes with a proof at position {pres}, every jump target")
    ch.outside = ["longer codes (an entry is checked by stepping from the proof, or from 0, to the target)", "proofs at or above 2^20, far beyond every code size"]
    ch.assumptions = ["code memory is zero beyond the code size", "entries are analysed independently: the analysis never reads the marks"]
    ret = ch.k.label("halt_final")
    q = z3.BitVec("probe", 32)

    def analysis(ch, name, n, proof, entries=1):
        bs = code_bytes("c", n)
        st = start(ch, "jumpdest_analysis", [0x1234, ret, n, CTX << 64])
        set_code(st, CTX, bs)
        cnt = {}

        def hook(E, s, fn):
            i = len(s.prover)
            if "next_address" in str(fn):
                if s.notes.get("entries", 0) >= entries:
                    return 0
                s.notes["entries"] = s.notes.get("entries", 0) + 1
                return z3.BitVec(f"addr{i}", 256)
            if proof is not None:
                return proof
            return z3.ZeroExt(236, z3.BitVec(f"proof{i}", 20))

        def ob(fin):
            if fin.status == "stuck":
                return []
            return [("returns to the caller with its stack", fin.status == "ret" and len(fin.stack) == 1 and simp(bv(fin.stack[0]) == 0x1234) if fin.status == "ret" else False)] + probe_obs(fin, ch.k, CTX, bs, q)
        ch.case(name, st, ob, halts={ret: "ret"}, validate=3, prover_hook=hook, max_paths=20000)

    def non(ch, name, n, proof):
        """hints: anything but those of the last 32 bytes before the target; those are a known finding"""
        for near in (False, True):
            if near and proof is None and n < 2:
                continue
            bs = code_bytes("c", n)
            d = z3.ZeroExt(224, z3.BitVec("d", 32))
            st = start(ch, "verify_non_jumpdest", [0x1234, ret, d])
            st.assume(z3.ULE(d, 0xc000))
            set_code(st, CTX, bs)
            p = z3.BitVecVal(proof, 256) if proof is not None else z3.BitVec("proof", 256)
            bad = near_hint(p, d)
            st.assume(bad if near else z3.Not(bad))

            def ob(fin, exact=True):
                if fin.status == "stuck":
                    return []
                return [("returns to the caller with its stack", fin.status == "ret" and len(fin.stack) == 1)] + probe_obs(fin, ch.k, CTX, bs, q, exact=z3.Extract(31, 0, d) if exact else None)
            kw = dict(halts={ret: "ret"}, validate=3, prover_hook=lambda E, s, fn: proof if proof is not None else p, max_paths=20000)
            if not near:
                ch.case(name, st, ob, **kw)
            else:
                ch.case(name + ", hint just below", st, lambda fin: ob(fin, False), **kw)
                st = st.clone()
                ch.case(name + ", hint just below", st, lambda fin: ob(fin)[-1:], key=lambda env: NEAR, **dict(kw, validate=0))

    jobs = []
    for n in reversed(small):
        jobs.append((f"analysis {n}", lambda ch, n=n: analysis(ch, f"table entry, code of {n} bytes", n, None)))
        jobs.append((f"non-jumpdest {n}", lambda ch, n=n: non(ch, f"invalid target, code of {n} bytes", n, None)))
    for p in pres:
        n = 32 + p + tail
        jobs.append((f"analysis window {p}", lambda ch, n=n, p=p: analysis(ch, f"table entry, code of {n} bytes, proof {p}", n, p)))
        jobs.append((f"non-jumpdest window {p}", lambda ch, n=n, p=p: non(ch, f"invalid target, code of {n} bytes, proof {p}", n, p)))
    jobs.append(("two entries", lambda ch: analysis(ch, "two table entries, code of 3 bytes", 3, None, 2)))
    ch.parallel(jobs)
    return ch.finish()
