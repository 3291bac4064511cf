"""TextCoalescer: text is delivered in one lump, before whatever follows it."""
from arx.prog import Program, Broken
from arx.absint import AbsInt, Monitor, mk, C, State, contains
from arx.report import Check
from arx.sax import ARITY, IFACE, handler_event
from checks.C04 import final, unld

# events that can directly follow character data
AFTER = ["startElement", "endElement", "processingInstruction", "startCDATA", "endCDATA", "comment", "startEntity", "endEntity",
         "skippedEntity", "startPrefixMapping"]


class Mon(Monitor):
    own = ()
    def init(self):
        return ()
    def inline(self, A, fn, ev):
        return fn.cls in self.own or not fn.cls or "string_adaptor" in (fn.clsn or "")
    def on_call(self, A, st, ev):
        h = handler_event(ev)
        if h and ev.virt:
            st = st.copy(); st.mon = st.mon + ((h[1],) + tuple(ev.vals),)
            return [(st, mk("void"))]
        return None


def check():
    c = Check("C05", "proof", "typestate of the text buffer over every path of every event: appended by text, delivered and emptied "
              "before any event that can follow text is passed on")
    P = Program(["sax"])
    rec = P.one_rec("Arabica::SAX::TextCoalescer")["id"]
    this = mk("obj", rec)
    mon = Mon(); mon.own = set(P.bases(rec))

    def run(name, st):
        f = final(P, rec, name, ARITY[name])
        A = AbsInt(P, mon); A.exact[this] = rec
        s = st.copy(); s.mon = ()
        return f, A, A.run(f, this=this, st=s)

    def bufs(st):
        return {l: v for l, v in st.store.items() if l.k == "F" and l.a[0] is this}

    ctors = [P.fns[m["id"]] for m in P.methods(rec) if m.get("kind") == "ctor" and m["id"] in P.fns and not P.fns[m["id"]].implicit]
    c.floor("constructors", len(ctors), 2)
    npath = 0
    for k in ctors:
        A = AbsInt(P, mon); A.exact[this] = rec
        s0 = State(); s0.mon = ()
        for o in A.run(k, this=this, st=s0):
            base = o.st
            for text in ("characters", "ignorableWhitespace"):
                f, A, outs = run(text, base)
                for o in outs:
                    npath += 1
                    ch = [l for l, v in bufs(o.st).items() if v is not base.store.get(l)]
                    val = o.st.store[ch[0]] if len(ch) == 1 else None
                    c.ob("%s is kept, not passed on" % text, o.kind == "ret" and not o.st.mon, f.loc, str(o.st.mon))
                    ok = val is not None and (contains(val, mk("p", 0)) and (val.k == "mut" and val.a[3] in ("append", "operator+=") or
                                                                             val.k == "call" and "operator+" in val.a[0]) or
                                              val is mk("ld", mk("p", 0)) and False)
                    c.ob("%s is added to the text already kept" % text, ok, f.loc, str(val))
                    if not ok:
                        continue
                    buf = ch[0]
                    # more text keeps what is there
                    for text2 in ("characters", "ignorableWhitespace"):
                        f2, A2, outs2 = run(text2, o.st)
                        for o2 in outs2:
                            v2 = o2.st.store.get(buf)
                            c.ob("%s after text is appended to it" % text2, o2.kind == "ret" and not o2.st.mon and v2 is not None and
                                 (v2.k == "mut" and v2.a[3] in ("append", "operator+=") or v2.k == "call" and contains(v2, val)), f2.loc, str(v2))
                    for ev in AFTER:
                        f3, A3, outs3 = run(ev, o.st)
                        if not outs3:
                            raise Broken("no path through " + ev)
                        for o3 in outs3:
                            npath += 1
                            empty = A3.truth(o3.st, A3.compare(o3.st, "==", A3.size_of(val), C(0)))
                            names = [t[0] for t in o3.st.mon]
                            if empty is True:
                                c.ob("%s with no pending text delivers no text" % ev, names in ([ev], ["characters", ev]), f3.loc, str(names))
                                continue
                            c.ob("pending text is delivered once before %s" % ev, o3.kind == "ret" and names == ["characters", ev] and
                                 o3.st.mon[0][1] is val, f3.loc, "passes on %s" % (names,))
                            left = o3.st.store.get(buf)
                            e2 = left is not None and A3.truth(o3.st, A3.compare(o3.st, "==", A3.size_of(left), C(0)))
                            c.ob("no text stays pending after %s" % ev, e2 is True or left is not None and left.k == "mut" and left.a[3] == "clear",
                                 f3.loc, str(left))
                            rest = [t for t in o3.st.mon if t[0] == ev]
                            c.ob("%s keeps its arguments" % ev, [tuple(unld(x) for x in t[1:]) for t in rest] ==
                                 [tuple(mk("p", i) for i in range(ARITY[ev]))], f3.loc, str(rest))
    c.floor("paths", npath, 60)
    return c.finish()
