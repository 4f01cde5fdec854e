"""256-bit EVM operations over Python ints and z3 terms.

A value is a Python int (concrete) or a z3 256-bit term. MUL, DIV, MOD, MULMOD, ADDMOD, EXP and
KECCAK of symbolic operands are uninterpreted functions by default; `evalz` gives them their real
meaning when a model is concretised, so that abstraction can never produce a false alarm."""
import z3

M = (1 << 256) - 1
W = 256
BV = z3.BitVecSort(256)
BN_BASE = 21888242871839275222246405745257275088696311157297823662689037894645226208583


def bv(x, w=W):
    return z3.BitVecVal(x, w) if isinstance(x, int) else x


def isint(x):
    return isinstance(x, int)


def simp(x):
    """Simplified term, or int if constant."""
    if isinstance(x, int):
        return x
    x = z3.simplify(x)
    return x.as_long() if z3.is_bv_value(x) else x


def norm(x):
    return x.as_long() if (not isinstance(x, int)) and z3.is_bv_value(x) else x


def sgn(x):
    return x - (1 << 256) if x >> 255 else x


UF = {}
UF_EVAL = {}


def uf(name, arity, fn):
    if name not in UF:
        UF[name] = z3.Function(name, *([BV] * (arity + 1)))
        UF_EVAL[name] = fn
    return UF[name]


class Mode:
    interp_mul = False
    interp_div = False
    interp_mod3 = False
    memcost = False


_W = {}


def width(t, d=0):
    """Syntactic upper bound of the number of significant bits."""
    if isinstance(t, int):
        return t.bit_length()
    i = t.get_id()
    if i in _W:
        return _W[i][1]
    w = t.size()
    if d < 12:
        k = t.decl().kind()
        if z3.is_bv_value(t):
            w = t.as_long().bit_length()
        elif k == z3.Z3_OP_ZERO_EXT:
            w = width(t.arg(0), d + 1)
        elif k == z3.Z3_OP_CONCAT:
            n, j = t.size(), 0
            for c in t.children():
                n -= c.size()
                cw = width(c, d + 1)
                if cw:
                    w = n + cw
                    break
            else:
                w = 0
        elif k == z3.Z3_OP_BLSHR and z3.is_bv_value(t.arg(1)):
            w = max(0, width(t.arg(0), d + 1) - t.arg(1).as_long())
        elif k == z3.Z3_OP_BSHL and z3.is_bv_value(t.arg(1)):
            w = min(w, width(t.arg(0), d + 1) + t.arg(1).as_long())
        elif k == z3.Z3_OP_BAND:
            w = min(width(c, d + 1) for c in t.children())
        elif k in (z3.Z3_OP_BOR, z3.Z3_OP_BXOR):
            w = max(width(c, d + 1) for c in t.children())
        elif k == z3.Z3_OP_ITE:
            w = max(width(t.arg(1), d + 1), width(t.arg(2), d + 1))
        elif k == z3.Z3_OP_BADD:
            w = min(w, max(width(c, d + 1) for c in t.children()) + (t.num_args() - 1).bit_length())
        elif k == z3.Z3_OP_BMUL:
            w = min(w, sum(width(c, d + 1) for c in t.children()))
        elif k == z3.Z3_OP_EXTRACT:
            hi, lo = t.params()
            w = min(w, max(0, width(t.arg(0), d + 1) - lo))
        elif k == z3.Z3_OP_UNINTERPRETED and t.num_args() == 2:
            if t.decl().eq(MUL):
                w = min(w, width(t.arg(0), d + 1) + width(t.arg(1), d + 1))
            elif t.decl().eq(POW) and z3.is_bv_value(t.arg(1)):
                w = min(w, width(t.arg(0), d + 1) * t.arg(1).as_long())
    _W[i] = (t, w)
    return w


def low(t, n, d=0):
    """Extract(n-1, 0, t), pushed inwards."""
    if isinstance(t, int):
        return z3.BitVecVal(t & ((1 << n) - 1), n)
    w = t.size()
    if w == n:
        return t
    k = t.decl().kind()
    if z3.is_bv_value(t):
        return z3.BitVecVal(t.as_long(), n)
    if d < 12:
        if k == z3.Z3_OP_ZERO_EXT:
            a = t.arg(0)
            return z3.ZeroExt(n - a.size(), a) if a.size() < n else low(a, n, d + 1)
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BMUL, z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR):
            cs = [low(c, n, d + 1) for c in t.children()]
            r = cs[0]
            for c in cs[1:]:
                r = {z3.Z3_OP_BADD: lambda x, y: x + y, z3.Z3_OP_BSUB: lambda x, y: x - y, z3.Z3_OP_BMUL: lambda x, y: x * y,
                     z3.Z3_OP_BAND: lambda x, y: x & y, z3.Z3_OP_BOR: lambda x, y: x | y, z3.Z3_OP_BXOR: lambda x, y: x ^ y}[k](r, c)
            return r
        if k == z3.Z3_OP_BNEG:
            return -low(t.arg(0), n, d + 1)
        if k == z3.Z3_OP_ITE:
            return z3.If(t.arg(0), low(t.arg(1), n, d + 1), low(t.arg(2), n, d + 1))
    return z3.simplify(z3.Extract(n - 1, 0, t))


def _addconst(x):
    """x = t + c"""
    if z3.is_app_of(x, z3.Z3_OP_BADD) and x.num_args() == 2 and z3.is_bv_value(x.arg(1)):
        return x.arg(0), x.arg(1).as_long()
    return x, 0


_MC = {}


def _three(x):
    """w if x = 3*w"""
    if z3.is_app_of(x, z3.Z3_OP_BMUL) and x.num_args() == 2:
        for i in (0, 1):
            if z3.is_bv_value(x.arg(i)) and x.arg(i).as_long() == 3:
                return x.arg(1 - i)
    return None


def add(a, b):
    if isint(a) and isint(b):
        return (a + b) & M
    if Mode.memcost and not isint(a) and not isint(b):  # 3*w + w*w/512: the memory cost of w words
        for x, y in ((a, b), (b, a)):
            w = _three(x)
            if w is None or 2 * width(w) >= 200:
                continue
            key = w.get_id()
            if key not in _MC:
                n = 2 * width(w)
                _MC[key] = (w, shr(9, mul(w, w)), z3.ZeroExt(W - n, z3.Extract(n - 1, 0, MEMCOST(w))))
            if y.eq(_MC[key][1]):
                return _MC[key][2]
    if isint(a):
        a, b = b, a
    for x, y in ((a, b), (b, a)):  # additions to the gas field of the return info
        if not isint(x) and z3.is_app_of(x, z3.Z3_OP_CONCAT) and x.arg(0).size() == 64:
            g = None
            if isint(y):
                if y & ((1 << 192) - 1) == 0:
                    g = z3.BitVecVal(y >> 192, 64)
            elif z3.is_app_of(y, z3.Z3_OP_BSHL) and z3.is_bv_value(y.arg(1)) and y.arg(1).as_long() == 192:
                g = low(y.arg(0), 64)
            elif z3.is_app_of(y, z3.Z3_OP_CONCAT) and y.num_args() == 2 and z3.is_bv_value(y.arg(1)) and y.arg(1).as_long() == 0 and y.arg(1).size() == 192:
                g = y.arg(0)
            if g is not None:
                return z3.Concat(x.arg(0) + g, *x.children()[1:])
    if isint(b):
        t, c = _addconst(a)
        c = (c + b) & M
        return t if c == 0 else t + z3.BitVecVal(c, W)
    t, c = _addconst(a)
    u, d = _addconst(b)
    c = (c + d) & M
    r = t + u
    return r if c == 0 else r + z3.BitVecVal(c, W)


def sub(a, b):
    if isint(a) and isint(b):
        return (a - b) & M
    if isint(b):
        return add(a, (-b) & M)
    if isint(a):
        if a == 0:
            return -b
        return bv(a) - b
    if a.eq(b):
        return 0
    t, c = _addconst(a)
    u, d = _addconst(b)
    if t.eq(u):
        return (c - d) & M
    r = t - u
    c = (c - d) & M
    return r if c == 0 else r + z3.BitVecVal(c, W)


def _ite01(x):
    """condition c if x = If(c, 1, 0)"""
    if not isint(x) and z3.is_app_of(x, z3.Z3_OP_ITE) and z3.is_bv_value(x.arg(1)) and z3.is_bv_value(x.arg(2)) \
            and x.arg(1).as_long() == 1 and x.arg(2).as_long() == 0:
        return x.arg(0)
    if not isint(x) and z3.is_app_of(x, z3.Z3_OP_BAND) and x.num_args() == 2 and z3.is_bv_value(x.arg(1)) and x.arg(1).as_long() == 1:
        return z3.Extract(0, 0, x.arg(0)) == 1
    return None


def mul(a, b):
    if isint(a) and isint(b):
        return (a * b) & M
    if isint(a):
        a, b = b, a
    if isint(b):
        if b == 0:
            return 0
        if b == 1:
            return a
        if b & (b - 1) == 0:
            return shl(b.bit_length() - 1, a)
        return a * z3.BitVecVal(b, W)
    for x, y in ((a, b), (b, a)):
        c = _ite01(x)
        if c is not None:
            return z3.If(c, y, z3.BitVecVal(0, W))
    if Mode.interp_mul:
        return a * b
    fac = {}
    for x in (a, b):
        _factors(x, fac)
    r = None
    for _, (t, n) in sorted(fac.items()):
        p = t if n == 1 else POW(t, z3.BitVecVal(n, W))
        r = p if r is None else MUL(r, p)
    w = width(a) + width(b)
    if w < 200:  # the product fits: tell the solver
        m = z3.ZeroExt(W - w, z3.Extract(w - 1, 0, r))
        PRODUCTS[m.get_id()] = (m, r)
        return m
    return r


MEMCOST = uf("memcost", 1, lambda w: (3 * w + w * w // 512) & M)
MUL = uf("mul", 2, lambda x, y: x * y & M)
POW = uf("pow", 2, lambda x, y: pow(x, y, 1 << 256))


PRODUCTS = {}


def _factors(x, fac, n=1):
    """Product normal form: atom id -> (atom, exponent)."""
    if x.get_id() in PRODUCTS:
        x = PRODUCTS[x.get_id()][1]
    if z3.is_app_of(x, z3.Z3_OP_UNINTERPRETED) and x.num_args() == 2:
        if x.decl().eq(MUL):
            _factors(x.arg(0), fac, n)
            _factors(x.arg(1), fac, n)
            return
        if x.decl().eq(POW) and z3.is_bv_value(x.arg(1)) and x.arg(1).as_long() * n <= M:
            _factors(x.arg(0), fac, n * x.arg(1).as_long())
            return
    i = x.get_id()
    fac[i] = (x, fac.get(i, (x, 0))[1] + n)


def div(a, b):
    if isint(a) and isint(b):
        return a // b if b else 0
    if isint(b):
        if b == 0:
            return 0
        if b == 1:
            return a
        if b & (b - 1) == 0:
            return shr(b.bit_length() - 1, a)
    if isint(a) and a == 0:
        return 0
    if Mode.interp_div:
        return z3.If(bv(b) == 0, bv(0), z3.UDiv(bv(a), bv(b)))
    f = uf("div", 2, lambda x, y: x // y if y else 0)
    return f(bv(a), bv(b))


def mod(a, b):
    if isint(a) and isint(b):
        return a % b if b else 0
    if isint(b):
        if b <= 1:
            return 0
        if b & (b - 1) == 0:
            return and_(a, b - 1)
    if Mode.interp_div:
        return z3.If(bv(b) == 0, bv(0), z3.URem(bv(a), bv(b)))
    f = uf("mod", 2, lambda x, y: x % y if y else 0)
    return f(bv(a), bv(b))


def sdiv(a, b):
    if isint(a) and isint(b):
        if b == 0:
            return 0
        x, y = sgn(a), sgn(b)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & M
    raise NotImplementedError


def _tern(name, fn):
    def g(a, b, n):
        if isint(a) and isint(b) and isint(n):
            return fn(a, b, n)
        if isint(n) and n <= 1:
            return 0
        f = uf(name, 3, fn)
        return f(bv(a), bv(b), bv(n))
    return g


addmod = _tern("addmod", lambda a, b, n: (a + b) % n if n else 0)
mulmod = _tern("mulmod", lambda a, b, n: (a * b) % n if n else 0)
submod = _tern("submod", lambda a, b, n: (a - b) % n if n else 0)


def b2v(c):
    return z3.If(c, z3.BitVecVal(1, W), z3.BitVecVal(0, W))


def lt(a, b):
    if isint(a) and isint(b):
        return int(a < b)
    if isint(b) and b == 0:
        return 0
    return b2v(ult(a, b))


def ult(a, b):
    """a < b as a Boolean term, at the narrowest width."""
    w = max(width(a), width(b), 1)
    if w < 200:
        return z3.ULT(low(a, w), low(b, w))
    return z3.ULT(bv(a), bv(b))


def ule(a, b):
    return z3.Not(ult(b, a))


def eqb(a, b):
    w = max(width(a), width(b), 1)
    if w < 200:
        return low(a, w) == low(b, w)
    return bv(a) == bv(b)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    if isint(a) and isint(b):
        return int(a == b)
    if isint(a):
        a, b = b, a
    if isint(b):
        c = _ite01(a)
        if c is not None:
            return a if b == 1 else b2v(z3.Not(c)) if b == 0 else 0
    elif a.eq(b):
        return 1
    return b2v(eqb(a, b))


def iszero(a):
    return eq(a, 0)


def and_(a, b):
    if isint(a) and isint(b):
        return a & b
    if isint(a):
        a, b = b, a
    if isint(b):
        if b == 0:
            return 0
        if b == M:
            return a
        return a & z3.BitVecVal(b, W)
    ca, cb = _ite01(a), _ite01(b)
    if ca is not None and cb is not None:
        return b2v(z3.And(ca, cb))
    return a & b


def or_(a, b):
    if isint(a) and isint(b):
        return a | b
    if isint(a):
        a, b = b, a
    if isint(b):
        if b == 0:
            return a
        if b == M:
            return M
        return a | z3.BitVecVal(b, W)
    ca, cb = _ite01(a), _ite01(b)
    if ca is not None and cb is not None:
        return b2v(z3.Or(ca, cb))
    return a | b


def xor(a, b):
    if isint(a) and isint(b):
        return a ^ b
    if isint(a):
        a, b = b, a
    if isint(b) and b == 0:
        return a
    return bv(a) ^ bv(b)


def not_(a):
    return M ^ a if isint(a) else ~a


def byte(i, x):
    if isint(i):
        if i >= 32:
            return 0
        return and_(shr(8 * (31 - i), x), 255)
    i = bv(i)
    return z3.If(z3.ULT(i, 32), z3.LShR(bv(x), (31 - i) * 8) & 255, z3.BitVecVal(0, W))


def shl(s, x):
    if isint(s):
        if s >= 256:
            return 0
        if isint(x):
            return (x << s) & M
        if s == 0:
            return x
        return x << z3.BitVecVal(s, W)
    return bv(x) << s  # z3: amounts >= 256 give 0


def shr(s, x):
    if isint(s):
        if s >= 256:
            return 0
        if isint(x):
            return x >> s
        if s == 0:
            return x
        if s == 192 and z3.is_app_of(x, z3.Z3_OP_CONCAT) and x.arg(0).size() == 64:
            return z3.ZeroExt(192, x.arg(0))
        w = width(x)
        if w <= s:
            return 0
        if w < 200:
            return z3.ZeroExt(W - w + s, z3.Extract(w - 1, s, low(x, w)))
        return z3.LShR(x, z3.BitVecVal(s, W))
    return z3.LShR(bv(x), s)


def slt(a, b):
    if isint(a) and isint(b):
        return int(sgn(a) < sgn(b))
    return b2v(bv(a) < bv(b))


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    return z3.If(c, bv(a), bv(b))


def nz(x):
    """Truth value as python bool or z3 Bool."""
    if isint(x):
        return x != 0
    c = _ite01(x)
    return c if c is not None else x != 0


# ---------------------------------------------------------------- evaluation
def evalz(t, env, cache=None):
    """Evaluates a z3 term under env {name: int | callable for arrays}, interpreting the UFs above."""
    if isinstance(t, (int, bool)):
        return t
    cache = {} if cache is None else cache
    stack = [t]
    while stack:
        e = stack[-1]
        i = e.get_id()
        if i in cache:
            stack.pop()
            continue
        ch = e.children()
        # lazy ite
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            c = ch[0]
            if c.get_id() not in cache:
                stack.append(c)
                continue
            br = ch[1] if cache[c.get_id()][1] else ch[2]
            if br.get_id() not in cache:
                stack.append(br)
                continue
            cache[i] = (e, cache[br.get_id()][1])
            stack.pop()
            continue
        todo = [c for c in ch if c.get_id() not in cache]
        if todo:
            stack.extend(todo)
            continue
        cache[i] = (e, _ev(e, [cache[c.get_id()][1] for c in ch], env))
        stack.pop()
    return cache[t.get_id()][1]


def _ev(e, a, env):
    k = e.decl().kind()
    name = e.decl().name()
    w = e.size() if z3.is_bv(e) else None
    m = (1 << w) - 1 if w else None
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if k == z3.Z3_OP_UNINTERPRETED:
        if not a:
            if z3.is_array(e):
                f = env.get(name)
                return f if f is not None else (lambda idx: 0)
            v = env.get(name, 0)
            return bool(v) if z3.is_bool(e) else v
        if name in UF_EVAL:
            return UF_EVAL[name](*a)
        return env[name](*a) if name in env else 0

    def s(x, ww):
        return x - (1 << ww) if x >> (ww - 1) else x
    if k == z3.Z3_OP_BADD:
        return sum(a) & m
    if k == z3.Z3_OP_BSUB:
        r = a[0]
        for x in a[1:]:
            r -= x
        return r & m
    if k == z3.Z3_OP_BNEG:
        return -a[0] & m
    if k == z3.Z3_OP_BMUL:
        r = 1
        for x in a:
            r = r * x & m
        return r
    if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I):
        return a[0] // a[1] if a[1] else m
    if k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
        return a[0] % a[1] if a[1] else a[0]
    if k == z3.Z3_OP_BAND:
        r = m
        for x in a:
            r &= x
        return r
    if k == z3.Z3_OP_BOR:
        r = 0
        for x in a:
            r |= x
        return r
    if k == z3.Z3_OP_BXOR:
        r = 0
        for x in a:
            r ^= x
        return r
    if k == z3.Z3_OP_BNOT:
        return ~a[0] & m
    if k == z3.Z3_OP_BSHL:
        return (a[0] << a[1]) & m if a[1] < w else 0
    if k == z3.Z3_OP_BLSHR:
        return a[0] >> a[1] if a[1] < w else 0
    if k == z3.Z3_OP_BASHR:
        return (s(a[0], w) >> min(a[1], w)) & m
    if k == z3.Z3_OP_CONCAT:
        r = 0
        for x, c in zip(a, e.children()):
            r = (r << c.size()) | x
        return r
    if k == z3.Z3_OP_EXTRACT:
        hi, lo = e.params()
        return (a[0] >> lo) & ((1 << (hi - lo + 1)) - 1)
    if k == z3.Z3_OP_ZERO_EXT:
        return a[0]
    if k == z3.Z3_OP_SIGN_EXT:
        return s(a[0], e.arg(0).size()) & m
    if k == z3.Z3_OP_EQ:
        return a[0] == a[1]
    if k == z3.Z3_OP_DISTINCT:
        return len(set(a)) == len(a)
    if k == z3.Z3_OP_NOT:
        return not a[0]
    if k == z3.Z3_OP_AND:
        return all(a)
    if k == z3.Z3_OP_OR:
        return any(a)
    if k == z3.Z3_OP_XOR:
        return a[0] != a[1]
    if k == z3.Z3_OP_IMPLIES:
        return (not a[0]) or a[1]
    if k == z3.Z3_OP_ULT:
        return a[0] < a[1]
    if k == z3.Z3_OP_ULEQ:
        return a[0] <= a[1]
    if k == z3.Z3_OP_UGT:
        return a[0] > a[1]
    if k == z3.Z3_OP_UGEQ:
        return a[0] >= a[1]
    if k in (z3.Z3_OP_SLT, z3.Z3_OP_SLEQ, z3.Z3_OP_SGT, z3.Z3_OP_SGEQ):
        ww = e.arg(0).size()
        x, y = s(a[0], ww), s(a[1], ww)
        return {z3.Z3_OP_SLT: x < y, z3.Z3_OP_SLEQ: x <= y, z3.Z3_OP_SGT: x > y, z3.Z3_OP_SGEQ: x >= y}[k]
    if k == z3.Z3_OP_SELECT:
        return a[0](a[1])
    if k == z3.Z3_OP_STORE:
        f, i, v = a
        return lambda idx: v if idx == i else f(idx)
    if k == z3.Z3_OP_CONST_ARRAY:
        v = a[0]
        return lambda idx: v
    if k == z3.Z3_OP_BSMOD or True:
        raise NotImplementedError(str(e.decl()))
