"""Value model of std::basic_string: concatenations of constants, characters, unknown strings and parts of them."""
import re
from .absint import mk, C

END = mk("end")
EMPTY = mk("s", "")
NPOS = (2 ** 64 - 1, -1, 2 ** 32 - 1)


def uncast(t):
    while t.k == "cast" or t.k == "op" and t.a[0] == "+" and t.a[2] is C(0):
        t = t.a[1]
    return t


def strval(v):
    """normal form of a string value"""
    while v.k == "ctor" and len(v.a) == 2 and "basic_string" in v.a[0] or v.k == "cptr":
        v = v.a[-1]
    if v.k == "ctor" and len(v.a) == 1:
        return EMPTY
    return v


def pieces(v):
    v = strval(v)
    if v.k == "cat":
        return list(v.a)
    if v.k == "s" and len(v.a[0]) == 0:
        return []
    return [v]


def cat(*vs):
    out = []
    for v in vs:
        for p in pieces(v):
            if p.k == "chr" and p.a[0].k == "c" and 0 < p.a[0].a[0] < 128:
                p = mk("s", chr(p.a[0].a[0]))
            if p.k == "s" and isinstance(p.a[0], str) and out and out[-1].k == "s" and isinstance(out[-1].a[0], str):
                out[-1] = mk("s", out[-1].a[0] + p.a[0])
            elif p.k == "sub" and out and out[-1].k == "sub" and p.a[0] is out[-1].a[0] and out[-1].a[2] is p.a[1]:
                q = sub(p.a[0], out[-1].a[1], p.a[2])
                out.pop(); out += pieces(q)
            else:
                out.append(p)
    if not out:
        return EMPTY
    return out[0] if len(out) == 1 else mk("cat", *out)


def sub(v, start, end):
    v = strval(v)
    start, end = uncast(start), uncast(end)
    if start is C(0) and end is END:
        return v
    if start is end or v is EMPTY:
        return EMPTY
    if v.k == "s" and start.k == "c" and (end.k == "c" or end is END):
        return mk("s", v.a[0][start.a[0]:end.a[0] if end.k == "c" else None])
    if v.k == "sub" and end is END:
        return mk("sub", v.a[0], plus(v.a[1], start), v.a[2])
    return mk("sub", v, start, end)


def plus(a, b):
    a, b = uncast(a), uncast(b)
    if a.k == "c" and b.k == "c":
        return C(a.a[0] + b.a[0])
    if a is C(0): return b
    if b is C(0): return a
    if a.k == "c": a, b = b, a
    if a.k == "op" and a.a[0] == "+" and a.a[2].k == "c" and b.k == "c":
        return plus(a.a[1], C(a.a[2].a[0] + b.a[0]))
    return mk("op", "+", a, b)


def upto(v, start, count):
    """end position of `count` characters of v from `start`"""
    count = uncast(count); start = uncast(start)
    if count.k == "c" and count.a[0] in NPOS:
        return END
    if count.k == "op" and count.a[0] == "-":
        a, b = uncast(count.a[1]), uncast(count.a[2])
        if b is start:
            if a.k == "size" and strval(a.a[0]) is strval(v):
                return END
            return a
    if count.k == "size" and start is C(0) and strval(count.a[0]) is strval(v):
        return END
    return plus(start, count)


def isstrty(t):
    return re.match(r"(const )?(std::)?(__cxx11::)?(basic_string<|string\b|wstring\b|string_type\b)", t.strip()) is not None and not t.rstrip().endswith("*")


class StrModel:
    """mixin for monitors: `str_call` before other models"""

    def str_is(self, ev):
        c = ev.cls or ""
        return c.split("<")[0].rsplit("::", 1)[-1] == "basic_string"

    def str_call(self, A, st, ev):
        short = ev.short
        if short == "operator+" and ev.name.startswith("std::") and len(ev.args) == 2 and ev.recv is None and \
                (isstrty(ev.ty) or any(isstrty(self.ptype(ev, i)) for i in (0, 1))):
            return [(st, cat(*[self.piece(A, ev, i) for i in (0, 1)]))]
        if ev.kind == "ctor":
            if not self.str_is(ev) and "basic_string" not in (ev.name or ""):
                return None
            if len(ev.vals) >= 2 and ev.vals[1].k not in ("r", "ctor", "ld", "L", "T") or len(ev.vals) >= 3:
                v = ev.vals[0]
                if self.isstr(ev, 0) and len(ev.vals) >= 2 and not self.ischarp(ev, 0):
                    n = ev.vals[2] if len(ev.vals) >= 3 and self.isint(ev, 2) else None
                    return [(st, sub(v, ev.vals[1], upto(v, ev.vals[1], n) if n is not None else END))]
                if self.ischarp(ev, 0) and self.isint(ev, 1) and v.k == "s" and isinstance(v.a[0], str) and ev.vals[1].k == "c" and \
                        0 <= ev.vals[1].a[0] <= len(v.a[0]):
                    return [(st, mk("s", v.a[0][:ev.vals[1].a[0]]))]
                if self.isint(ev, 0) and self.isint(ev, 1):
                    if ev.vals[0].k == "c" and 0 <= ev.vals[0].a[0] < 64:
                        return [(st, cat(*[mk("chr", ev.vals[1])] * ev.vals[0].a[0]))]
                    return [(st, mk("rep", ev.vals[1], uncast(ev.vals[0])))]
            return None
        r = ev.recv
        if r is None or not self.str_is(ev):
            return None
        if short in ("c_str", "data") and not ev.vals:
            t = mk("cptr", strval(A.load(st, r)))
            s = st.copy()
            A.meet(s, t, ((1, 2 ** 64 - 1),))
            return [(s, t)]
        if ev.const and short not in ("substr",):
            return None
        v = strval(A.load(st, r))
        n = len(ev.vals)

        def put(x, res=None):
            s = st.copy()
            A.mon.on_store(A, s, r, x, ev)
            s.store[r] = self.widen(x)
            return [(s, r if res is None else res)]
        if short in ("append", "operator+=", "assign", "operator="):
            if n == 1:
                p = self.piece(A, ev, 0)
            elif n == 2 and self.isint(ev, 0) and self.isint(ev, 1):
                if ev.vals[0].k == "c" and 0 <= ev.vals[0].a[0] < 64:
                    p = cat(*[mk("chr", ev.vals[1])] * ev.vals[0].a[0])
                else:
                    p = mk("rep", ev.vals[1], uncast(ev.vals[0]))
            elif n in (2, 3) and self.isstr(ev, 0) and self.isint(ev, 1):
                if n == 2 and self.ischarp(ev, 0):
                    p = sub(ev.vals[0], C(0), ev.vals[1])
                else:
                    p = sub(ev.vals[0], ev.vals[1], upto(ev.vals[0], ev.vals[1], ev.vals[2]) if n == 3 else END)
            elif n == 2:
                p = self.between(A, st, ev.vals[0], ev.vals[1])
                if p is None: return None
            else:
                return None
            return put(p if short in ("assign", "operator=") else cat(v, p))
        if short == "push_back" and n == 1:
            return put(cat(v, mk("chr", ev.vals[0])), mk("void"))
        if short == "clear":
            return put(EMPTY, mk("void"))
        if short == "insert" and n == 2 and self.isint(ev, 0) and self.isstr(ev, 1):
            return put(cat(sub(v, C(0), ev.vals[0]), ev.vals[1], sub(v, ev.vals[0], END)))
        if short == "replace" and n == 3 and self.isint(ev, 0) and self.isint(ev, 1) and self.isstr(ev, 2):
            return put(cat(sub(v, C(0), ev.vals[0]), ev.vals[2], sub(v, upto(v, ev.vals[0], ev.vals[1]), END)))
        if short == "erase" and all(self.isint(ev, i) for i in range(n)):
            a = ev.vals[0] if n else C(0)
            e = upto(v, a, ev.vals[1]) if n > 1 else END
            return put(cat(sub(v, C(0), a), sub(v, e, END) if e is not END else EMPTY))
        if short == "resize" and n == 1 and self.isint(ev, 0):
            return put(sub(v, C(0), ev.vals[0]), mk("void"))
        if short == "substr":
            a = ev.vals[0] if n else C(0)
            return [(st, sub(v, a, upto(v, a, ev.vals[1]) if n > 1 else END))]
        if short == "swap" and n == 1 and len(ev.args) == 1:
            s = st.copy(); w = A.load(s, ev.args[0]); s.store[r] = w; s.store[ev.args[0]] = v
            return [(s, mk("void"))]
        return None

    def widen(self, v):
        return v

    def between(self, A, st, b, e):
        def src(t):
            while t.k in ("ctor", "cast") and len(t.a) == 2:
                t = t.a[1]
            if t.k == "call" and t.a[0].rsplit("::", 1)[-1] in ("begin", "cbegin", "end", "cend") and len(t.a) > 1:
                return t.a[0].rsplit("::", 1)[-1].lstrip("c"), t.a[-1]
            return None, None
        kb, xb = src(b); ke, xe = src(e)
        if kb == "begin" and ke == "end" and xb is xe:
            return A.load(st, xb) if xb.k in ("L", "T", "F", "p") and xb in st.store else (mk("ld", xb) if xb.k != "ld" else xb)
        return None

    def ptype(self, ev, i):
        nd = ev.infn.nodes[ev.node]
        a = nd.get("args", [])
        off = len(a) - len(ev.args)
        return ev.infn.nodes[a[i + off]].get("ty", "") if 0 <= i + off < len(a) else ""

    def ischarp(self, ev, i):
        t = self.ptype(ev, i)
        return t.rstrip().endswith("*") or t.rstrip().endswith("]")

    def isstr(self, ev, i):
        t = self.ptype(ev, i)
        return isstrty(t) or self.ischarp(ev, i) or ev.vals[i].k in ("s", "cat", "sub")

    def isint(self, ev, i):
        t = self.ptype(ev, i)
        return not self.isstr(ev, i) and not t.endswith("*") and "iterator" not in t

    def piece(self, A, ev, i):
        v = ev.vals[i]
        t = self.ptype(ev, i).replace("const", "").replace("&", "").strip()
        if t in ("char", "wchar_t", "unsigned char") or v.k == "c":
            return mk("chr", v)
        return strval(v)


class StrIter(StrModel):
    """positions in strings whose characters are known terms (mk("seq", c0, c1, ...) or literals)"""

    def chars(self, A, st, v):
        v = strval(A.load(st, v))
        if v.k == "s":
            return [C(ord(x)) for x in v.a[0]]
        if v.k == "seq":
            return list(v.a)
        return None

    def load(self, A, st, loc):
        if loc.k in ("str", "seq", "cat", "s"):          # a value given where a reference is expected
            return loc
        if loc.k == "chel":
            cs = self.chars(A, st, loc.a[0])
            return cs[loc.a[1]] if 0 <= loc.a[1] < len(cs) else mk("past end", *loc.a)
        return super().load(A, st, loc)

    def strit(self, st, t):
        v = t if t.k == "strit" else st.store.get(t, t)
        while v.k in ("ctor", "cast") and len(v.a) == 2:
            v = v.a[1]
            if v.k != "strit":
                v = st.store.get(v, v)
        return v if v.k == "strit" else None

    def rstrit(self, st, t):
        v = t if t.k == "rstrit" else st.store.get(t, t)
        while v.k in ("ctor", "cast") and len(v.a) == 2:
            v = v.a[1]
            if v.k != "rstrit": v = st.store.get(v, v)
        return v if v.k == "rstrit" else None

    def backwards(self, A, st, ev):
        short, r = ev.short, ev.recv
        if r is not None and self.str_is(ev) and not ev.vals and short in ("rbegin", "rend", "crbegin", "crend"):
            v = strval(A.load(st, r)); cs = self.chars(A, st, v)
            return None if cs is None else [(st, mk("rstrit", v, len(cs) if "begin" in short else 0))]
        ops = ([r] if r is not None else []) + list(ev.args)
        i0 = self.rstrit(st, ops[0]) if ops and ev.kind != "ctor" else None
        if i0 is None: return None
        v, i = i0.a
        if short in ("operator==", "operator!=") and len(ops) == 2:
            i1 = self.rstrit(st, ops[1])
            return [(st, C((i0 is i1) == (short == "operator==")))] if i1 is not None else None
        if short == "operator*" and len(ops) == 1: return [(st, mk("chel", v, i - 1))]
        if short in ("operator++", "operator--"):
            s = st.copy(); s.store[ops[0]] = mk("rstrit", v, i - 1 if short == "operator++" else i + 1)
            return [(s, ops[0] if len(ops) == 1 else i0)]
        if short == "base": return [(st, mk("strit", v, i))]
        return None

    def str_call(self, A, st, ev):
        short, r = ev.short, ev.recv
        b = self.backwards(A, st, ev)
        if b is not None: return b
        if r is not None and self.str_is(ev) and \
                (not ev.vals and short in ("begin", "end", "cbegin", "cend", "size", "length", "empty") or short in ("find", "rfind")):
            v = strval(A.load(st, r))
            cs = self.chars(A, st, v)
            if cs is not None:
                if short in ("begin", "cbegin"): return [(st, mk("strit", v, 0))]
                if short in ("end", "cend"): return [(st, mk("strit", v, len(cs)))]
                if short not in ("find", "rfind"): return [(st, C(not cs) if short == "empty" else C(len(cs)))]
            if short in ("find", "rfind") and cs is not None and (len(ev.vals) == 1 or short == "find" and ev.vals[1] is C(0) and len(ev.vals) == 2):
                pat = [ev.vals[0]] if self.isint(ev, 0) else self.chars(A, st, ev.vals[0])
                if pat is not None and len(pat) == 1:
                    out = []; states = [st]
                    for i in range(len(cs)) if short == "find" else range(len(cs) - 1, -1, -1):
                        nxt = []
                        for s in states:
                            for b in (True, False):
                                s2 = s.copy()
                                if A.assume(s2, C(1) if cs[i] is pat[0] else A.compare(s2, "==", cs[i], pat[0]), b):
                                    (out if b else nxt).append((s2, C(i)) if b else s2)
                        states = nxt
                    return out + [(s, C(2 ** 64 - 1)) for s in states]
        ops = ([r] if r is not None else []) + list(ev.args)
        i0 = self.strit(st, ops[0]) if ops else None
        if i0 is not None and ev.kind != "ctor":
            v, i = i0.a; cs = self.chars(A, st, v)
            if short in ("operator==", "operator!=") and len(ops) == 2:
                i1 = self.strit(st, ops[1])
                return [(st, C((i0 is i1) == (short == "operator==")))] if i1 is not None else None
            if short == "operator*" and len(ops) == 1:
                return [(st, mk("chel", v, i))]
            if short in ("operator++", "operator--"):
                s = st.copy(); nw = mk("strit", v, i + (1 if short == "operator++" else -1))
                s.store[ops[0]] = nw
                return [(s, ops[0] if len(ops) == 1 else i0)]
            if short in ("operator+", "operator-") and len(ops) == 2:
                i1 = self.strit(st, ops[1])
                if i1 is not None and short == "operator-": return [(st, C(i - i1.a[1]))]
                if ev.vals[-1].k == "c":
                    return [(st, mk("strit", v, i + ev.vals[-1].a[0] * (1 if short == "operator+" else -1)))]
        return StrModel.str_call(self, A, st, ev)


class StrEdit(StrIter):
    """strings whose characters are all known: positions refer to the string object, so that writing through them is seen"""

    def known(self, A, st, t):
        v = strval(A.load(st, t))
        if v.k == "s" and isinstance(v.a[0], str): return v.a[0]
        if v.k == "seq" and all(x.k == "c" and 0 <= x.a[0] < 256 for x in v.a): return "".join(chr(x.a[0]) for x in v.a)
        return None

    def on_store(self, A, st, loc, val, ev):
        if loc.k == "chel" and loc.a[0].k not in ("s", "seq", "str", "cat"):
            cs = self.chars(A, st, loc.a[0])
            if cs is not None:
                if not 0 <= loc.a[1] < len(cs):
                    self.outside(A, st, ev)
                    return
                cs[loc.a[1]] = uncast(val)
                st.store[loc.a[0]] = mk("s", "".join(chr(c.a[0] & 255) for c in cs)) if all(c.k == "c" for c in cs) else mk("seq", *cs)
                return
        super().on_store(A, st, loc, val, ev)

    def outside(self, A, st, ev):
        from .prog import Broken
        raise Broken("a write outside a string")

    def str_call(self, A, st, ev):
        short, r = ev.short, ev.recv
        if r is not None and self.str_is(ev) and ev.kind != "ctor":
            x = self.known(A, st, r)
            place = r.k in ("L", "T", "F", "p", "elem", "G")
            if x is not None:
                def end(v): return [(st, v)]
                if not ev.vals and place:
                    if short in ("begin", "cbegin"): return end(mk("strit", r, 0))
                    if short in ("end", "cend"): return end(mk("strit", r, len(x)))
                if not ev.vals and short in ("size", "length", "empty"):
                    return end(C(not x) if short == "empty" else C(len(x)))
                if short in ("operator[]", "at") and ev.vals[0].k == "c":
                    i = ev.vals[0].a[0]
                    if short == "operator[]" and i == len(x): return end(C(0))
                    if 0 <= i < len(x): return end(mk("chel", r, i))
                if short in ("back", "front") and x:
                    return end(mk("chel", r, 0 if short == "front" else len(x) - 1))
                if short in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of") and 1 <= len(ev.vals) <= 2:
                    y = chr(ev.vals[0].a[0] & 255) if self.isint(ev, 0) and ev.vals[0].k == "c" else self.known(A, st, ev.args[0])
                    pos = ev.vals[1] if len(ev.vals) == 2 else None
                    if y is not None and (pos is None or pos.k == "c"):
                        last = "rfind" in short or "last" in short
                        p = pos.a[0] if pos is not None else (2 ** 64 - 1 if last else 0)
                        if p < 0: p += 2 ** 64
                        if short == "find": k = x.find(y, p) if p <= len(x) else -1
                        elif short == "rfind": k = x.rfind(y, 0, min(p, len(x)) + len(y))
                        else:
                            rng = range(p, len(x)) if not last else range(min(p, len(x) - 1), -1, -1)
                            k = next((i for i in rng if (x[i] in y) != ("not" in short)), -1)
                        return end(C(k if k >= 0 else 2 ** 64 - 1))
                if short == "compare" and len(ev.vals) == 1:
                    y = self.known(A, st, ev.args[0])
                    if y is not None: return end(C((x > y) - (x < y)))
                if short == "compare" and len(ev.vals) == 3 and all(ev.vals[i].k == "c" for i in (0, 1)):
                    y = self.known(A, st, ev.args[2]); a, n = ev.vals[0].a[0], ev.vals[1].a[0]
                    if y is not None and a <= len(x):
                        z = x[a:a + n] if n >= 0 else x[a:]
                        return end(C((z > y) - (z < y)))
                if short == "erase" and ev.args and place:
                    i = self.strit(st, ev.args[0])
                    j = self.strit(st, ev.args[1]) if len(ev.args) > 1 else i and mk("strit", i.a[0], i.a[1] + 1)
                    if i is not None and j is not None and i.a[0] is r and j.a[0] is r and 0 <= i.a[1] <= j.a[1] <= len(x):
                        s = st.copy(); s.store[r] = mk("s", x[:i.a[1]] + x[j.a[1]:])
                        return [(s, i)]
                if short in ("append", "assign") and len(ev.args) == 2:
                    i, j = self.strit(st, ev.args[0]), self.strit(st, ev.args[1])
                    if i is not None and j is not None and i.a[0] is j.a[0]:
                        y = self.known(A, st, i.a[0])
                        if y is not None:
                            s = st.copy(); s.store[r] = mk("s", (x if short == "append" else "") + y[i.a[1]:j.a[1]])
                            return [(s, r)]
        if ev.kind == "ctor" and (self.str_is(ev) or "basic_string" in (ev.name or "")) and len(ev.args) >= 2:
            i, j = self.strit(st, ev.args[0]), self.strit(st, ev.args[1])
            if i is not None and j is not None and i.a[0] is j.a[0]:
                y = self.known(A, st, i.a[0])
                if y is not None: return [(st, mk("s", y[i.a[1]:j.a[1]]))]
        if short in ("operator==", "operator!=", "operator<") and r is None and len(ev.args) == 2 and any(isstrty(self.ptype(ev, i)) for i in (0, 1)):
            x, y = self.known(A, st, ev.args[0]), self.known(A, st, ev.args[1])
            if x is not None and y is not None:
                return [(st, C({"operator==": x == y, "operator!=": x != y, "operator<": x < y}[short]))]
        return super().str_call(A, st, ev)
