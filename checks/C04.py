"""SAX filters are transparent: wiring, forwarding, configuration."""
from arx.prog import Program, Broken
from arx.absint import AbsInt, Monitor, mk, C, State, Exc
from arx.report import Check
from arx.sax import HANDLERS, ARITY, IFACE, handler_event

FILTERS = {  # class -> events it transforms itself (decided by other properties)
    "XMLFilterImpl": set(),
    "NamespaceTracker": set(),
    "XMLBaseTracker": set(),
    "PYXWriter": set(),
    "TextCoalescer": {"characters", "ignorableWhitespace"},
    "WhitespaceStripper": {"characters", "ignorableWhitespace"},
    "Writer": set(),
}


class Mon(Monitor):
    own = ()
    def init(self):
        return ()
    def inline(self, A, fn, ev):
        return fn.cls in self.own or not fn.cls
    def on_call(self, A, st, ev):
        h = handler_event(ev)
        if h and ev.virt and ev.recv is not A.this0:
            st = st.copy(); st.mon = st.mon + (("h",) + h + (ev.recv,) + tuple(ev.args),)
            r = mk("answer", h[1])
            return [(st, r)]
        if (ev.cls or "").endswith("SAX::XMLReaderInterface") and ev.kind == "call":
            st = st.copy(); st.mon = st.mon + (("reader", ev.short, ev.recv) + tuple(ev.args),)
            r = mk("answer", ev.short); A.tyof[r] = "bool" if ev.short == "getFeature" else ""
            return [(st, r)]
        return None


def final(P, rec, name, n):
    """the definition of method name/n an object of class rec runs"""
    for m in P.method(rec, name, n):
        fo = P.final_overrider(rec, m["id"]) or m["id"]
        if fo in P.fns:
            return P.fns[fo]
    return None


def unld(t):
    while t.k == "ld" and t.a[0].k == "p":
        t = t.a[0]
    return t


def check():
    c = Check("C04", "proof", "every path of every event method of every filter: which handler is called, how often, with what arguments; "
              "setters, getters, defaults and parse wiring by constant propagation through the object's fields")
    P = Program(["sax"])
    nev = 0
    for cname, own_events in FILTERS.items():
        rec = P.one_rec("Arabica::SAX::" + cname)["id"]
        this = mk("obj", rec)
        mon = Mon(); mon.own = set(P.bases(rec))

        def eng():
            A = AbsInt(P, mon); A.exact[this] = rec; A.this0 = this
            return A

        def run(f, st, args=None):
            A = eng()
            return A, A.run(f, this=this, st=st, args=args)

        # defaults after construction
        for m in P.methods(rec):
            if m.get("kind") != "ctor" or m["id"] not in P.fns or P.fns[m["id"]].implicit:
                continue
            f = P.fns[m["id"]]
            s0 = State(); s0.mon = ()
            A, outs = run(f, s0)
            for o in outs:
                if o.kind != "ret":
                    c.ob("%s constructor returns" % cname, False, f.loc, str(o.exc)); continue
                for h in HANDLERS:
                    g = final(P, rec, "get" + h, 0)
                    s1 = o.st.copy(); s1.mon = ()
                    A1, o1 = run(g, s1)
                    c.ob("%s starts with a default %s" % (cname, h),
                         all(x.kind == "ret" and x.val.k == "F" for x in o1) and o1, f.loc, str([x.val for x in o1]))
                    nev += 1
        # register all six handlers, then every event
        st = State(); st.mon = ()
        reg = {}
        for h in HANDLERS:
            f = final(P, rec, "set" + h, 1)
            if f is None:
                raise Broken("no set%s in %s" % (h, cname))
            reg[h] = mk("handler", h)
            A, outs = run(f, st, [reg[h]])
            if len(outs) != 1 or outs[0].kind != "ret":
                raise Broken("set%s of %s does not simply return" % (h, cname))
            st = outs[0].st.copy(); st.mon = ()
        for h in HANDLERS:
            f = final(P, rec, "get" + h, 0)
            A, outs = run(f, st)
            c.ob("%s get%s answers what was set" % (cname, h), outs and all(o.kind == "ret" and o.val is reg[h] for o in outs), f.loc,
                 str([o.val for o in outs]))
        for ev, h in IFACE.items():
            if ev in own_events:
                continue
            f = final(P, rec, ev, ARITY[ev])
            if f is None:
                raise Broken("%s has no %s" % (cname, ev))
            nev += 1
            s0 = st.copy(); s0.mon = ()
            A, outs = run(f, s0)
            c.ob("%s %s can return" % (cname, ev), any(o.kind == "ret" for o in outs), f.loc, "")
            for o in outs:
                if o.kind != "ret":
                    c.ob("%s %s does not throw" % (cname, ev), False, f.loc, str(o.exc)); continue
                calls = [t for t in o.st.mon if t[0] == "h" and (ev == "characters" or t[2] != "characters")]
                want = ("h", h, ev, reg[h]) + tuple(mk("p", i) for i in range(ARITY[ev]))
                got = [t[:4] + tuple(unld(x) for x in t[4:]) for t in calls]
                c.ob("%s passes %s to the %s once, arguments unchanged" % (cname, ev, h), got == [want], f.loc, str(calls))
                if ev == "resolveEntity":
                    c.ob("%s answers resolveEntity with the resolver's answer" % cname, o.val is mk("answer", ev) or
                         (o.val.k in ("ctor", "obj", "T", "copyof") and "answer" in str(o.val)) or str(o.st.store.get(o.val)).find("answer") >= 0,
                         f.loc, str(o.val))
        # parse: register with the parent, then parse there
        parent = mk("reader")
        sp = final(P, rec, "setParent", 1); gp = final(P, rec, "getParent", 0)
        if sp is None or gp is None:
            raise Broken("setParent/getParent")
        s0 = st.copy(); s0.mon = ()
        A, outs = run(sp, s0, [parent])
        st2 = outs[0].st.copy(); st2.mon = ()
        A, outs = run(gp, st2)
        c.ob("%s getParent answers the parent" % cname, all(o.val is parent for o in outs), gp.loc, str([o.val for o in outs]))
        pf = final(P, rec, "parse", 1)
        A, outs = run(pf, st2)
        for o in outs:
            calls = [t for t in o.st.mon if t[0] == "reader"]
            ok = o.kind == "ret" and calls and calls[-1] == ("reader", "parse", parent, mk("p", 0)) and \
                sum(1 for t in calls if t[1] == "parse") == 1
            c.ob("%s parse asks its parent to parse, once, last" % cname, ok, pf.loc, str(calls))
            for h in HANDLERS:
                c.ob("%s parse registers itself as the parent's %s" % (cname, h),
                     [t for t in calls if t[1] == "set" + h] == [("reader", "set" + h, parent, this)], pf.loc, str(calls))
        for nm, n in (("setFeature", 2), ("getFeature", 1)):
            f = final(P, rec, nm, n)
            A, outs = run(f, st2)
            for o in outs:
                calls = [t for t in o.st.mon if t[0] == "reader"]
                want = ("reader", nm, parent) + tuple(mk("p", i) for i in range(n))
                got = [t[:3] + tuple(unld(x) for x in t[3:]) for t in calls]
                c.ob("%s %s is answered by the parent" % (cname, nm), o.kind == "ret" and got == [want] and
                     (nm == "setFeature" or o.val is mk("answer", "getFeature")), f.loc, str(calls))
            # without a parent the request is refused
            ctor = [P.fns[m["id"]] for m in P.methods(rec) if m.get("kind") == "ctor" and m["id"] in P.fns and not
                    any("XMLReaderInterface" in p for p in [q["ty"] for q in P.fns[m["id"]].params]) and not P.fns[m["id"]].implicit]
            for k in ctor:
                s0 = State(); s0.mon = ()
                A, outs = run(k, s0)
                for o in outs:
                    s1 = o.st.copy(); s1.mon = ()
                    A1, o1 = run(f, s1)
                    c.ob("%s %s without a parent raises not-recognised" % (cname, nm),
                         o1 and all(x.kind == "throw" and x.exc.name.endswith("SAXNotRecognizedException") for x in o1), f.loc, str(o1))
    c.floor("events and defaults examined", nev, 160)
    return c.finish()
