"""C05: the byte-packing table: packed word = addressed bytes, and nothing else reaches the memory table."""
from stark import *
BYP, MEM = 1, 6


def looking(ch, table_idx, looked):
    out = []
    for c in ch.sys.looked(looked):
        out += [t for t in c["looking_tables"] if t["table"] == table_idx]
    return out


def expected(L, rd, ctx, seg, virt, ts, vals):
    return [(rd, ctx, seg, (virt + k) % P, vals[k], ts) for k in range(L)]


def concrete(lk, mem, rngs):
    def ok(lv, nv):
        if any(not lo <= lv[v] <= hi for v, (lo, hi) in rngs.items()):
            return True
        f = filtval(lk.filter, lv, nv)
        acc = []
        for t in mem:
            ff = filtval(t["filter"], lv, nv)
            if ff == 0:
                continue
            if ff != 1:
                return False
            v = [colval(c, lv, nv) for c in t["columns"]]
            if any(v[5:12]):
                return False
            acc.append((v[0], v[1], v[2], v[3], v[4], v[12]))
        if f == 0:
            return not acc
        v = [colval(c, lv, nv) for c in lk.cols]
        rd, ctx, seg, virt, L, ts = v[:6]
        word = sum(x << 32 * i for i, x in enumerate(v[6:14]))
        if f != 1 or rd not in (0, 1) or not 1 <= L <= 32:
            return False
        by = word.to_bytes(40, "big")[40 - L:] if word < 1 << 320 else None
        return word < 256 ** L and sorted(acc) == sorted(expected(L, rd, ctx, seg, virt, ts, by))
    return ok


def run(tier):
    ch = SCheck("C05", tier)
    lk = Looked(ch, "byte_packing")
    mem = looking(ch, BYP, "memory")
    rng = ch.range_checks("byte_packing")
    ch.bound("every pair of rows over the Goldilocks field whose byte columns are below 2^8; every length 1..32")
    ch.functions += ["byte_packing_stark.rs eval_packed_generic, executed on a symbolic field",
                     "BytePackingStark::lookups, ctl_looked_data, ctl_looked_filter, ctl_looking_memory(_filter)"]
    ch.assumptions += ["the lookup argument implies that looked-up values occur in the table column (LogUp soundness)"]
    conc = concrete(lk, mem, rng)
    lencol = lk.cols[4]
    flags = sorted({v for v, _ in lencol["linear_combination"]} | {v for c in lk.filter["constants"] for v, _ in c["linear_combination"]})

    def filt(e, f):
        r = {}
        for a, b in f["products"]:
            r = field.padd(r, field.pmul(e.lin(a), e.lin(b)))
        for c in f["constants"]:
            r = field.padd(r, e.lin(c))
        return field.psub(r, e.sub)

    def flags_case(ch):
        """A claiming row has exactly the flag of its length; others have none."""
        def goal(e):
            f, L = e.canon(filt(e, lk.filter)), e.canon(e.lin(lencol))
            cs = []
            for k in range(1, 33):
                on = [v for v, c in lencol["linear_combination"] if c == k]
                cs.append(z3.And(f == 1, L == k, *[e.value(v) == (1 if v in on else 0) for v in flags]))
            return z3.Or(z3.And(f == 0, *[e.value(v) == 0 for v in flags]), *cs)
        ch.ask_row("length flags are exactly one or none", "byte_packing", dict(keep=flags, bounds=rng), goal, conc)
        ch.paths += 1

    def len_case(ch, ls):
        for L in ls:
            on = [v for v, c in lencol["linear_combination"] if c == L] if L else []
            fixed = {v: int(v in on) for v in flags}

            def goal(e):
                rd, ctx, seg, virt, ln, ts = (e.lin(c) for c in lk.cols[:6])
                eq = lambda a, b: e.eq0(field.padd(a, b, -1))
                gs = []
                acc = {}
                for t in mem:
                    f = filt(e, t["filter"])
                    if not f:
                        continue
                    v = [e.lin(c) for c in t["columns"]]
                    gs += [eq(f, field.pconst(1)), eq(v[0], rd), eq(v[1], ctx), eq(v[2], seg), eq(v[12], ts)]
                    gs += [eq(x, {}) for x in v[5:12]]
                    d = field.padd(v[3], virt, -1)
                    if not field.isconst(d) or field.cval(d) in acc:
                        gs.append(z3.BoolVal(False))
                    else:
                        acc[field.cval(d)] = v[4]
                gs.append(z3.BoolVal(sorted(acc) == list(range(L))))
                if L == 0:
                    return z3.And(*gs)
                r = e.canon(rd)
                gs.append(z3.Or(r == 0, r == 1))
                gs.append(eq(filt(e, lk.filter), field.pconst(1)))
                gs.append(eq(ln, field.pconst(L)))
                word = z3.Sum([e.canon(e.lin(c)) * (1 << 32 * i) for i, c in enumerate(lk.cols[6:14])])
                by = [e.canon(acc[k]) if k in acc else z3.IntVal(0) for k in range(L)]
                gs += [z3.And(b >= 0, b < 256) for b in by]
                gs.append(word == z3.Sum([b * 256 ** (L - 1 - k) for k, b in enumerate(by)]))
                return z3.And(*gs)
            ch.ask_row(f"length {L}: word, bytes and memory accesses agree" if L else "padding rows access no memory", "byte_packing",
                       dict(fixed=fixed, bounds=rng), goal, conc)
            ch.paths += 1

    ch.parallel([("flags", flags_case)] + [(f"len {k}", lambda ch, k=k: len_case(ch, range(k, min(k + 11, 33)))) for k in (0, 11, 22)])
    ch.sample({"memory lookups": len(mem), "range-checked columns": len(rng)})
    return ch.finish()
