"""Attribute lists of the SAX interface."""
from arx.prog import Program, Broken
from arx.absint import mk, C, NULL, contains
from arx.cont import seq
from arx.report import Check
from arx.sim import Sim, OutMon
from arx.strs import strval

PARTS = ("getURI", "getLocalName", "getQName", "getType", "getValue")
SETTERS = ("setURI", "setLocalName", "setQName", "setType", "setValue")
EMPTY = mk("s", "")


class Mon(OutMon):
    src = None

    def event(self, A, st, ev):
        if ev.recv is not None and ev.recv is self.src and ev.kind == "call":
            l = self.items
            if ev.short == "getLength": return [(st, C(len(l)))]
            if ev.short in PARTS and len(ev.vals) == 1 and ev.vals[0].k == "c":
                i = ev.vals[0].a[0]
                return [(st, l[i][PARTS.index(ev.short)] if 0 <= i < len(l) else EMPTY)]
        return None


def check():
    c = Check("C13", "proof", "every observer of an attribute list after every way of building and changing it, for lists of up to three attributes "
              "with arbitrary distinct strings, and every index")
    P = Program(["sax"])
    mon = Mon(); S = Sim(P, mon)
    rec = P.one_rec("Arabica::SAX::AttributesImpl")["id"]
    al = S.obj(rec, "al")
    strs = {}

    def word(x):
        return strs.setdefault(x, mk("str", x))

    def attr(i):
        return tuple(word("%s%s" % (p[3:].lower(), i)) for p in PARTS)

    def distinct(st):
        A = S.engine(); st = st.copy()
        l = list(strs.values()) + [EMPTY]
        for i, a in enumerate(l):
            for b in l[:i]:
                A.assume(st, A.compare(st, "==", a, b), False)
        return st
    ATTS = [attr(i) for i in range(4)]
    NEW = attr("N")
    for x in ("nosuch1", "nosuch2"): word(x)

    def vals(st, name, *args):
        out = set()
        for v in S.get(st, al, name, *args):
            out.add(v if isinstance(v, str) else strval(v))
        return out

    def same(key, st, want, loc):
        """every observer agrees with the list `want` of attributes"""
        c.ob(key + ": length", vals(st, "getLength") == {C(len(want))}, loc, str(vals(st, "getLength")))
        for i in range(len(want) + 2):
            for p, name in enumerate(PARTS):
                w = {want[i][p] if i < len(want) else EMPTY}
                g = by(st, name, C(i))
                c.ob("%s: %s by position" % (key, name), g == w, loc, "position %d: %s, expected %s" % (i, g, w))
        for name, res in (("getIndex", None), ("getType", 3), ("getValue", 4)):
            for q in [a[2] for a in ATTS + [NEW]] + [word("nosuch1"), EMPTY]:
                hit = next((i for i, a in enumerate(want) if a[2] is q), None)
                w = C(-1 if hit is None else hit) if res is None else EMPTY if hit is None else want[hit][res]
                g = by(st, name, q)
                c.ob("%s: %s by name" % (key, name), g == {w}, loc, "%s: %s, expected %s" % (q, g, w))
            for u, l in [(a[0], a[1]) for a in ATTS + [NEW]] + [(ATTS[0][0], ATTS[1][1]), (ATTS[0][0], word("nosuch1")), (word("nosuch1"), ATTS[0][1]), (EMPTY, EMPTY)]:
                hit = next((i for i, a in enumerate(want) if a[0] is u and a[1] is l), None)
                w = C(-1 if hit is None else hit) if res is None else EMPTY if hit is None else want[hit][res]
                g = by(st, name, u, l)
                c.ob("%s: %s by namespace and name" % (key, name), g == {w}, loc, "%s %s: %s, expected %s" % (u, l, g, w))

    def by(st, name, *args):
        """overloads: one argument of type int or string"""
        fs = []
        for m in P.method(rec, name, len(args)):
            fo = P.final_overrider(rec, m["id"]) or m["id"]
            f = P.fns.get(fo)
            if f is None or f in fs: continue
            isint = "int" in f.params[0]["ty"] and "basic_string" not in f.params[0]["ty"]
            if isint == (args[0].k == "c"): fs.append(f)
        if len(fs) != 1:
            raise Broken("overloads of %s/%d: %s" % (name, len(args), fs))
        out = set()
        for x in S.go(st, al, fs[0], list(args)):
            if x.kind != "ret": out.add("throws %s" % x.exc); continue
            v = x.val
            if v.k in ("F", "L", "T", "el", "I"): v = S.engine().load(x.st, v)
            while v.k == "cast": v = v.a[1]
            out.add(strval(v))
        return out

    def do(st, name, *args):
        outs = [x for x in S.call(st, al, name, *args)]
        f = S.fn(al, name, len(args))
        c.ob("%s returns in one way" % name, len(outs) == 1 and outs[0].kind == "ret", f.loc, "%d outcomes" % len(outs))
        return outs[0].st

    start = [o.st for k, o in S.new(S.start(), al, 0)][0]
    start = distinct(start)
    st = start; lists = [(st, [])]
    for i in range(3):
        st = do(st, "addAttribute", *ATTS[i]); lists.append((st, ATTS[:i + 1]))
    for st, want in lists:
        n = len(want)
        same("addAttribute", st, want, S.fn(al, "addAttribute", 5).loc)
        s = do(st, "clear"); same("clear", s, [], S.fn(al, "clear", 0).loc)
        s = do(s, "addAttribute", *ATTS[3]); same("addAttribute after clear", s, [ATTS[3]], S.fn(al, "addAttribute", 5).loc)
        # by position
        for i in range(n + 2):
            for name, args, eff in [(s_, [word("w" if False else "nosuch2")], (lambda a, p=p: a[:p] + (word("nosuch2"),) + a[p + 1:])) for p, s_ in enumerate(SETTERS)] + \
                    [("setAttribute", list(NEW), lambda a: NEW), ("removeAttribute", [], lambda a: None)]:
                f = S.fn(al, name, len(args) + 1)
                for o in S.call(st, al, name, C(i), *args):
                    if i < n:
                        c.ob("%s in range is accepted" % name, o.kind == "ret", f.loc, str(o.exc))
                        if o.kind == "ret":
                            w = list(want); e = eff(w[i])
                            w = w[:i] + ([e] if e is not None else []) + w[i + 1:]
                            same(name, o.st, w, f.loc)
                    else:
                        c.ob("%s out of range throws out_of_range" % name, o.kind == "throw" and "out_of_range" in str(o.exc.name), f.loc, str(o.exc or o.kind))
                        if o.kind == "throw": same("%s out of range" % name, o.st, want, f.loc)
        # a name already there, and a new one
        for i in range(n):
            a = ATTS[i][:2] + NEW[2:]
            f = S.fn(al, "addOrReplaceAttribute", 5)
            s = do(st, "addOrReplaceAttribute", *a)
            same("addOrReplaceAttribute of a known name", s, [x if j != i else x[:4] + (NEW[4],) for j, x in enumerate(want)], f.loc)
        s = do(st, "addOrReplaceAttribute", *NEW)
        same("addOrReplaceAttribute of a new name", s, want + [NEW], S.fn(al, "addOrReplaceAttribute", 5).loc)
        # two with one name: the first answers
        if n:
            s = do(st, "addAttribute", *(ATTS[0][:3] + NEW[3:]))
            same("the first of two attributes of one name answers", s, want + [ATTS[0][:3] + NEW[3:]], S.fn(al, "addAttribute", 5).loc)
        # copies of another list
        mon.src = mk("obj", "source%d" % n)
        for cnt in range(3):
            mon.items = [NEW, ATTS[3]][:cnt]
            s = do(st, "setAttributes", mon.src)
            same("setAttributes", s, mon.items, S.fn(al, "setAttributes", 1).loc)
            for m in P.method(rec, "operator=", 1):
                f = P.fns.get(m["id"])
                if f is None or f.implicit or P.rname(rec).split("<")[0] in f.params[0]["ty"].split("<")[0]:
                    continue
                for o in S.go(st, al, f, [mon.src]):
                    c.ob("assignment from another list returns the list", o.kind == "ret" and o.val is al, f.loc, str(o.val))
                    same("assignment from another list", o.st, mon.items, f.loc)
            for o in S.new(S.start(), al, 1, [mon.src]):
                if len(st.store) and n == 0:
                    same("copy of another list", distinct(o[1].st), mon.items, o[0].loc)
    c.stat("runs", S.runs); c.stat("paths", S.paths)
    c.floor("runs", S.runs, 1000)
    return c.finish()
