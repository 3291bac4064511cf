"""Namespace declarations and base URIs are in force exactly within their elements."""
from arx.prog import Program, Broken
from arx.absint import mk, C, NULL, contains
from arx.cont import seq, mapv, ent
from arx.report import Check
from arx.sim import Sim, EventMon
from arx.strs import strval


def sv(v):
    return strval(v) if not isinstance(v, str) else v


def check():
    c = Check("C11", "proof", "namespace and base tracking: the bindings a user sees during each event, for known inner elements over an "
              "arbitrary stack of outer ones; the stack after an element is the stack before it")
    P = Program(["sax"])
    mon = EventMon()
    S = Sim(P, mon)
    XML, XMLNS = mk("s", "xml"), mk("s", "xmlns")
    XMLURI = mk("s", "http://www.w3.org/XML/1998/namespace")
    names = ["p1", "p2", "p3"]
    p1, p2, p3 = [mk("str", x) for x in names]
    u1, u2, u3 = [mk("str", x) for x in ("u1", "u2", "u3")]
    E = lambda n: [mk("str", n + x) for x in ("uri", "local", "qname", "atts")]
    H = mk("obj", "user handler")

    def distinct(st):
        A = S.engine(); st = st.copy()
        ks = [p1, p2, p3, XML, XMLNS, mk("s", "")]
        for i, a in enumerate(ks):
            for b in ks[:i]:
                A.assume(st, A.compare(st, "==", a, b), False)
        return st

    def look(st, o, what, *args):
        r = {sv(v) for v in S.get(st, o, what, *args)}
        return r

    def one(key, states, loc):
        c.ob(key, len(states) == 1, loc, "%d ways" % len(states))
        return states[0] if states else None

    def stacks(st, o):
        return {l: v for l, v in st.store.items() if contains(l, o) and v.k == "seq"}

    # ---- the bare namespace context stack
    rec = P.one_rec("Arabica::SAX::NamespaceSupport")["id"]
    ns = S.obj(rec, "ns")
    for k, o in S.new(S.start(), ns):
        st = distinct(o.st)
        c.ob("new: xml is bound", look(st, ns, "getURI", XML) == {XMLURI}, k.loc, "")
        c.ob("new: nothing else is bound", look(st, ns, "getURI", p1) == {mk("s", "")}, k.loc, "")
        before = stacks(st, ns)
        loc = S.fn(ns, "declarePrefix", 2).loc
        for s in (XML, XMLNS):
            for r in S.call(st, ns, "declarePrefix", s, u1):
                c.ob("declaring %s is refused" % s, r.kind == "ret" and S.engine().truth(r.st, r.val) is False and stacks(r.st, ns) == before, loc, str(r.val))
        for r in S.call(st, ns, "declarePrefix", p1, u1):
            c.ob("declaring another prefix is accepted", r.kind == "ret" and S.engine().truth(r.st, r.val) is True, loc, str(r.val))
            s1 = r.st
            c.ob("a declared prefix is bound", look(s1, ns, "getURI", p1) == {u1}, loc, "")
            c.ob("another prefix is not", look(s1, ns, "getURI", p2) == {mk("s", "")}, loc, "")
            c.ob("xml stays bound", look(s1, ns, "getURI", XML) == {XMLURI}, loc, "")
            for s2 in S.do(s1, ns, "pushContext"):
                c.ob("an inner context sees outer bindings", look(s2, ns, "getURI", p1) == {u1}, loc, "")
                for s3 in S.do(s2, ns, "declarePrefix", p1, u2):
                    c.ob("an inner binding hides the outer one", look(s3, ns, "getURI", p1) == {u2}, loc, "")
                    for s4 in S.do(s3, ns, "popContext"):
                        c.ob("popping a context restores the outer bindings", stacks(s4, ns) == stacks(s1, ns) and look(s4, ns, "getURI", p1) == {u1},
                             S.fn(ns, "popContext", 0).loc, "")
                    for s4 in S.do(s3, ns, "reset"):
                        c.ob("reset forgets all bindings", stacks(s4, ns) == before, S.fn(ns, "reset", 0).loc, "")
                    A = S.engine(); s5 = s3.copy()
                    for x, y in ((u1, u2), (u1, XMLURI), (u2, XMLURI)):
                        A.assume(s5, A.compare(s5, "==", x, y), False)
                    c.ob("the prefix found for a URI is bound to it", look(s5, ns, "getPrefix", u2) == {p1}, S.fn(ns, "getPrefix", 1).loc, "")
                    c.ob("the prefix found for the xml URI is xml", look(s5, ns, "getPrefix", XMLURI) == {XML}, S.fn(ns, "getPrefix", 1).loc, "")

    # ---- the tracker
    rec = P.one_rec("Arabica::SAX::NamespaceTracker")["id"]
    nt = S.obj(rec, "nt")
    for k, o in S.new(S.start(), nt, 0):
        st = distinct(o.st)
        st = one("a handler can be set", S.do(st, nt, "setContentHandler", H), k.loc)
        fs, fe = S.fn(nt, "startElement", 4).loc, S.fn(nt, "endElement", 3).loc
        # an arbitrary stack of further contexts below
        flds = stacks(st, nt)
        c.ob("one stack of contexts", len(flds) == 1, k.loc, str(flds))
        if len(flds) != 1:
            raise Broken("namespace contexts of NamespaceTracker: %s" % flds)
        fld, v0 = next(iter(flds.items()))
        c.ob("xml is bound at the start", look(st, nt, "getURI", XML) == {XMLURI}, k.loc, "")
        gen = st.copy(); gen.store[fld] = seq(mk("seg", mk("str", "outer")), *v0.a)

        def decls(st, pairs):
            for p, u in pairs:
                st = one("a declaration is noted in one way", S.do(st, nt, "startPrefixMapping", p, u), S.fn(nt, "startPrefixMapping", 2).loc)
            return st

        def element(st, pairs, name):
            """(state at the forwarded start, state after)"""
            st = decls(st, pairs)
            outs = [x for x in S.call(st, nt, "startElement", *E(name))]
            x = outs[0]
            c.ob("startElement ends in one way", len(outs) == 1 and x.kind == "ret", fs, "%d" % len(outs))
            ev = [m for m in x.st.mon if m[0] == "startElement"]
            c.ob("startElement is passed on once", len(ev) == 1 and len(x.st.mon) == 1 and list(ev[0][1]) == E(name), fs, str(x.st.mon))
            return (mon.snaps[ev[0][2]] if ev else x.st), x.st

        def end(st, name):
            outs = S.call(st, nt, "endElement", *E(name)[:3])
            x = outs[0]
            ev = [m for m in x.st.mon if m[0] == "endElement"]
            c.ob("endElement is passed on once", len(outs) == 1 and len(ev) == 1 and list(ev[0][1]) == E(name)[:3], fe, str(x.st.mon))
            return (mon.snaps[ev[0][2]] if ev else x.st), x.st

        SETS = [[], [(p1, u1)], [(p1, u1), (p2, u2)], [(p1, u1), (p2, u2), (p3, u3)]]
        for ds in SETS:
            at, s1 = element(gen, ds, "outer")
            d1 = dict(ds)
            for when, s in (("during startElement", at), ("after it", s1)):
                for p, u in d1.items():
                    c.ob("%s: a declared prefix is bound (%d declared)" % (when, len(ds)), look(s, nt, "getURI", p) == {u}, fs, str(look(s, nt, "getURI", p)))
            for es in ([], [(p1, u3)], [(p2, u3), (p1, u2)]):
                at2, s2 = element(s1, es, "inner")
                d2 = dict(d1); d2.update(es)
                for p, u in d2.items():
                    for when, s in (("at the inner start", at2), ("after the inner start", s2)):
                        c.ob("%s the innermost declaration counts" % when, look(s, nt, "getURI", p) == {u}, fs, str(look(s, nt, "getURI", p)))
                at3, s3 = end(s2, "inner")
                for p, u in d2.items():
                    c.ob("at the inner end its declarations are still in force", look(at3, nt, "getURI", p) == {u}, fe, str(look(at3, nt, "getURI", p)))
                c.ob("after an element the contexts are as before it", s3.store[fld] is s1.store[fld], fe, "%s" % s3.store[fld])
                for p, u in d1.items():
                    c.ob("after the inner end the outer declarations are back", look(s3, nt, "getURI", p) == {u}, fe, "")
                at4, s4 = end(s3, "outer")
                c.ob("after the outer element the contexts are as before it", s4.store[fld] is gen.store[fld], fe, str(s4.store[fld]))
        # declarations belong to one element only
        at, s1 = element(gen, [(p1, u1)], "a"); _, s2 = end(s1, "a"); at2, s3 = element(s2, [], "b")
        c.ob("declarations do not carry over to the next sibling", len(s3.store[fld].a) and s3.store[fld].a[-1] is not s1.store[fld].a[-1] and
             not contains(s3.store[fld].a[-1], u1), fs, str(s3.store[fld]))
        # the whole picture
        at, s1 = element(st, [(p1, u1), (p2, u2)], "a"); at2, s2 = element(s1, [(p1, u3)], "b")
        for x in S.call(s2, nt, "inScopeNamespaces"):
            v = x.val
            if x.kind == "ret":
                w = mon.val(S.A, x.st, v)
                got = {e.a[0]: sv(e.a[1]) for e in w.a} if w is not None else None
                c.ob("the namespaces in scope are the innermost ones", got is not None and {k_: got.get(k_) for k_ in (p1, p2, XML)} ==
                     {p1: u3, p2: u2, XML: XMLURI} and set(got) <= {p1, p2, XML, mk("s", "")}, S.fn(nt, "inScopeNamespaces", 0).loc, str(got))

    # ---- base URIs
    rec = P.one_rec("Arabica::SAX::XMLBaseTracker")["id"]
    xb = S.obj(rec, "xb")
    LOC, DOC = mk("obj", "locator"), mk("str", "document URI")
    B1, B2 = mk("str", "base1"), mk("str", "base2")
    basis = {}

    class BaseMon(EventMon):
        def on_call(self, A, st, ev):
            if ev.kind == "call" and ev.virt and ev.short == "getSystemId" and ev.recv is LOC:
                return [(st, DOC)]
            if ev.kind == "call" and ev.short == "getValue" and (ev.cls or "").endswith("Attributes") and len(ev.vals) == 2:
                ok = [strval(v) for v in ev.vals] == [XMLURI, mk("s", "base")]
                c.ob("the base is taken from the attribute xml:base", ok, ev.where, str(ev.vals))
                return [(st, basis.get(ev.recv, mk("s", "")))]
            return EventMon.on_call(self, A, st, ev)
    mon = BaseMon(); S.mon = mon
    for k, o in S.new(S.start(), xb, 0):
        st = o.st
        st = one("a handler can be set", S.do(st, xb, "setContentHandler", H), k.loc)
        c.ob("no base at the start", look(st, xb, "currentBase") == {mk("s", "")}, k.loc, "")
        fs = S.fn(xb, "startElement", 4).loc; fe = S.fn(xb, "endElement", 3).loc
        ways = {"setDocumentLocation": (S.do(st, xb, "setDocumentLocation", DOC), "location given"),
                "setDocumentLocator": (S.do(st, xb, "setDocumentLocator", LOC), "locator given")}
        for way, (states, txt) in ways.items():
            for st1 in states:
                def el(s, base):
                    atts = mk("obj", "atts of " + str(base))
                    basis[atts] = base
                    A = S.engine(); s = s.copy()
                    if base.k != "s":
                        A.assume(s, A.compare(s, "==", base, mk("s", "")), False)
                    outs = S.call(s, xb, "startElement", *(E("e")[:3] + [atts]))
                    x = outs[0]
                    ev = [m for m in x.st.mon if m[0] == "startElement"]
                    c.ob("%s: startElement is passed on once" % txt, len(outs) == 1 and x.kind == "ret" and len(ev) == 1, fs, " / ".join("%s %s %s" % (y.kind, y.exc, {str(l): str(v) for l, v in y.st.store.items() if contains(l, xb) and "base" in str(l)}) for y in outs))
                    return mon.snaps[ev[0][2]] if ev else x.st, x.st

                def en(s):
                    outs = S.call(s, xb, "endElement", *E("e")[:3])
                    x = outs[0]
                    ev = [m for m in x.st.mon if m[0] == "endElement"]
                    c.ob("%s: endElement is passed on once" % txt, len(outs) == 1 and x.kind == "ret" and len(ev) == 1, fe, str(x.st.mon))
                    return mon.snaps[ev[0][2]] if ev else x.st, x.st

                def base(s):
                    return look(s, xb, "currentBase")
                NONE = mk("s", "")
                # nesting of elements with and without xml:base, to depth 4, then out again
                for pat in ("", "b", "n", "bb", "nb", "bn", "nn", "nbn", "bnb", "bbn", "nnb", "bnnb", "nbbn"):
                    s = st1; hist = []
                    a0 = base(s)
                    cur = DOC
                    bases = [cur]
                    n = 0
                    for ch in pat:
                        n += 1
                        b = mk("str", "base%d" % n) if ch == "b" else NONE
                        at, s = el(s, b)
                        now = base(s)
                        c.ob("%s: the base is the same when the start of the element is passed on" % txt, base(at) == now and len(now) == 1, fs, str(now))
                        v = next(iter(now))
                        if ch == "b":
                            ok = not isinstance(v, str) and contains(v, b) and contains(v, bases[-1]) and v is not b
                            c.ob("%s: xml:base is resolved against the base around it" % txt, ok, fs, "%s: %s in %s" % (pat, v, bases[-1]))
                        else:
                            c.ob("%s: an element without xml:base keeps the base" % txt, v is bases[-1], fs, "%s: %s, was %s" % (pat, v, bases[-1]))
                        bases.append(v)
                    for ch in reversed(pat):
                        at, s = en(s)
                        c.ob("%s: at its end an element's own base is in force" % txt, base(at) == {bases[-1]}, fe, "%s" % base(at))
                        bases.pop()
                        c.ob("%s: after an element the base around it is back" % txt, base(s) == {bases[-1]}, fe, "%s: %s, expected %s" % (pat, base(s), bases[-1]))
    c.stat("runs", S.runs); c.stat("paths", S.paths)
    c.floor("paths", S.paths, 300)
    return c.finish()
