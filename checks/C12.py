"""PYX output and the whitespace stripping filter."""
from arx.prog import Program, Broken
from arx.absint import mk, C, NULL, contains
from arx.cont import seq
from arx.report import Check
from arx.sim import Sim, OutMon
from arx.strs import strval
def unld(t):
    while t.k == "ld" and len(t.a) <= 2:
        t = t.a[0]
    return t



class Mon(OutMon):
    atts = {}

    def event(self, A, st, ev):
        if (ev.cls or "").endswith("SAX::Attributes") and ev.recv in self.atts and ev.kind == "call":
            l = self.atts[ev.recv]
            if ev.short == "getLength": return [(st, C(len(l)))]
            if ev.short in ("getLocalName", "getValue", "getQName", "getURI") and ev.vals and ev.vals[0].k == "c" and 0 <= ev.vals[0].a[0] < len(l):
                return [(st, l[ev.vals[0].a[0]][ev.short])]
            return [(st, mk("oob", ev.short, *ev.vals))]
        return None


def check():
    c = Check("C12", "proof", "every path of the PYX writer's events over strings of symbolic characters and 0 to 3 attributes: the exact "
              "output, and the event passed on unchanged")
    P = Program(["sax"])
    mon = Mon(); S = Sim(P, mon)
    rec = P.one_rec("Arabica::SAX::PYXWriter")["id"]
    H = mk("obj", "user handler")
    lengths = (0, 1, 2, 3)

    def text(name, n):
        cs = []
        for i in range(n):
            t = mk("char", name, i); S.tyof[t] = "char"; cs.append(t)
        return seq(*cs)

    def escaped(A, st, s):
        """expected tokens for escaped s on this path; None if the path leaves a character undecided"""
        out = []
        for ch in s.a:
            r = A.truth(st, A.compare(st, "==", ch, C(10)))
            if r is True: out += [92, 110]
            elif r is False: out.append(("v", ch))
            else: return None
        return out

    def norm(A, st, toks):
        """inserted characters known to be one value are that value"""
        out = []
        for t in toks:
            if isinstance(t, tuple) and t[0] == "v" and t[1].k != "str":
                d = A.dom(st, t[1])
                if len(d) == 1 and d[0][0] == d[0][1]:
                    t = d[0][0]
            out.append(t)
        return out

    def run(name, args, want):
        """want(A, st) -> the tokens expected before the event is passed on"""
        nonlocal st
        f = S.fn(px, name, len(args))
        for o in S.call(st, px, name, *args):
            A = S.A
            c.ob("%s returns" % name, o.kind == "ret", f.loc, str(o.exc))
            evs = [t for t in o.st.mon if isinstance(t, tuple) and t[0] == name]
            c.ob("%s is passed on once, unchanged" % name, len(evs) == 1 and [unld(x) for x in evs[0][1]] == list(args), f.loc, str(evs))
            toks = norm(A, o.st, [t for t in o.st.mon if not (isinstance(t, tuple) and t[0] == name)])
            w = want(A, o.st)
            if w is None:        # characters written without being looked at: fine only if none needs escaping, which they may
                c.ob("%s looks at every character it writes" % name, False, f.loc, "%s" % (toks,))
                continue
            w = norm(A, o.st, w)
            c.ob("%s: output" % name, toks == w, f.loc, "writes %s, expected %s" % (show(toks), show(w)))

    def show(toks):
        return "".join(chr(t) if isinstance(t, int) and 0 <= t < 256 else "{%s}" % (t[1] if isinstance(t, tuple) else t,) for t in toks)

    nctor = 0
    OS, PAR = mk("obj", "stream"), mk("obj", "parent")
    for n in (1, 2):
        px = S.obj(rec, "px%d" % n)
        for k, o in S.new(S.start(), px, n, [OS, PAR][:n]):
            nctor += 1
            st = S.do(o.st, px, "setContentHandler", H)[0]
            u, l, q = [mk("str", x) for x in ("uri", "local", "qname")]
            for m in lengths:
                tx = text("text", m)
                run("characters", [tx], lambda A, s: (lambda e: None if e is None else [45] + e + [10])(escaped(A, s, tx)))
            run("endElement", [u, l, q], lambda A, s: [41, ("v", l), 10])
            for a in lengths:
                at = mk("obj", "atts%d" % a)
                for m in (0, 1, 2) if a < 3 else (1,):
                    mon.atts[at] = [dict(getLocalName=mk("str", "name%d" % i), getQName=mk("str", "qname%d" % i), getURI=mk("str", "uri%d" % i),
                                         getValue=text("value%d" % i, m)) for i in range(a)]
                    def want(A, s):
                        w = [40, ("v", l), 10]
                        for x in mon.atts[at]:
                            e = escaped(A, s, x["getValue"])
                            if e is None: return None
                            w += [65, ("v", x["getLocalName"]), 32] + e + [10]
                        return w
                    run("startElement", [u, l, q, at], want)
            t, d = mk("str", "target"), mk("str", "data")
            run("processingInstruction", [t, d], lambda A, s: [63, ("v", t), 32, ("v", d), 10])
    c.floor("constructors", nctor, 2)

    # nothing else is written
    for name, args in (("startDocument", []), ("endDocument", []), ("startPrefixMapping", [mk("str", "a"), mk("str", "b")]),
                       ("ignorableWhitespace", [mk("str", "a")]), ("skippedEntity", [mk("str", "a")])):
        run(name, args, lambda A, s: [])

    # whitespace stripping
    rec2 = P.one_rec("Arabica::SAX::WhitespaceStripper")["id"]
    ws = S.obj(rec2, "ws")
    for k, o in S.new(S.start(), ws, 0):
        s1 = S.do(o.st, ws, "setContentHandler", H)[0]
        f = S.fn(ws, "ignorableWhitespace", 1)
        for o2 in S.call(s1, ws, "ignorableWhitespace", mk("str", "t")):
            c.ob("ignorable whitespace is dropped", o2.kind == "ret" and not o2.st.mon, f.loc, str(o2.st.mon))
    c.stat("paths", S.paths)
    c.floor("paths", S.paths, 60)
    return c.finish()
