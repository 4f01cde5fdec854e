"""Parser of Rust `Debug` output into Python dicts, tuples, lists and ints."""
import re
TOK = re.compile(r'\s*(?:("(?:[^"\\]|\\.)*")|(-?\d+)|([A-Za-z_]\w*(?:::\w+)*)|(.))', re.S)


def parse(s):
    toks = []
    for m in TOK.finditer(s):
        if m.group(1) is not None:
            toks.append(("s", m.group(1)[1:-1]))
        elif m.group(2) is not None:
            toks.append(("i", int(m.group(2))))
        elif m.group(3) is not None:
            toks.append(("n", m.group(3)))
        elif m.group(4).strip():
            toks.append(("p", m.group(4)))
    pos = 0

    def peek():
        return toks[pos] if pos < len(toks) else (None, None)

    def eat(c):
        nonlocal pos
        assert toks[pos] == ("p", c), (toks[pos - 3:pos + 3], c)
        pos += 1

    def seq(close):
        nonlocal pos
        out = []
        while peek() != ("p", close):
            out.append(val())
            if peek() == ("p", ","):
                pos += 1
        pos += 1
        return out

    def val():
        nonlocal pos
        k, v = toks[pos]
        pos += 1
        if k in ("s", "i"):
            return v
        if (k, v) == ("p", "["):
            return seq("]")
        if (k, v) == ("p", "("):
            return tuple(seq(")"))
        if (k, v) == ("p", "{"):
            return fields(None)
        if k == "n":
            n = peek()
            if n == ("p", "{"):
                pos += 1
                return fields(v)
            if n == ("p", "("):
                pos += 1
                a = seq(")")
                return a[0] if v == "Some" else (v, *a)
            return None if v == "None" else v
        raise ValueError((k, v))

    def fields(name):
        nonlocal pos
        d = {} if name is None else {"_": name}
        while peek() != ("p", "}"):
            key = val()
            eat(":")
            d[key] = val()
            if peek() == ("p", ","):
                pos += 1
        pos += 1
        return d
    return val()
