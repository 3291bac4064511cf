"""Read-only nodes cannot be modified."""
from arx.prog import Program, Broken
from arx.absint import AbsInt, Monitor, mk, C, NULL, State, contains
from arx.report import Check
from arx.dom import SeqModel, KINDS, CODES, CODE_NAME, concrete, construct, final, dom_code, ty_record, NS

# (method, number of parameters)
OPS = [("setNodeValue", 1), ("insertBefore", 2), ("replaceChild", 2), ("removeChild", 1), ("appendChild", 1), ("purgeChild", 1),
       ("setPrefix", 1), ("setData", 1), ("appendData", 1), ("insertData", 2), ("deleteData", 2), ("replaceData", 3), ("splitText", 1),
       ("setValue", 1), ("setAttribute", 2), ("removeAttribute", 1), ("setAttributeNode", 1), ("removeAttributeNode", 1),
       ("setAttributeNS", 3), ("removeAttributeNS", 2), ("setAttributeNodeNS", 1)]
MAP_OPS = [("setNamedItem", 1), ("removeNamedItem", 1), ("setNamedItemNS", 1), ("removeNamedItemNS", 2)]
SCALAR = ("bool", "int", "unsigned int", "unsigned long", "long")
CHILD_OPS = ("insertBefore", "replaceChild", "removeChild", "appendChild", "purgeChild")
SAME_OK = ("setAttributeNode", "setAttributeNodeNS", "setNamedItem", "setNamedItemNS")
MUTATORS = {n for n, _ in OPS + MAP_OPS}


class Changed(Exception):
    pass


class Mon(SeqModel):
    P = None
    first = False                       # stop at the first change
    def changed(self, st, what):
        st.mon = st.mon + (what,)
        if self.first:
            raise Changed(what)
    def init(self):
        return ()
    def inline(self, A, fn, ev):
        return "::SimpleDOM::" in fn.name or "::DOM::" in fn.name or "string_adaptor" in fn.name
    def dyncast(self, A, st, v, rec):
        return v
    def on_store(self, A, st, loc, val, ev):
        SeqModel.on_store(self, A, st, loc, val, ev)
        if loc.k != "F":
            return
        t = loc
        while t.k in ("F", "I"):
            t = t.a[0]
        if t.k in ("L", "T", "new"):
            return
        if self.fty.get(loc.a[1], "") in SCALAR:
            return                      # flags and counters are not content
        self.changed(st, ("store", loc.a[1]))
    def on_call(self, A, st, ev):
        if ev.kind == "call" and ev.virt and ev.recv is not None and A.exact.get(ev.recv) is None and ev.short in MUTATORS and ev.recv.k != "new":
            st = st.copy(); self.changed(st, ("call", ev.short))
            return [(st, mk("answer", ev.short))]
        # containers of nodes changed in place
        if ev.kind == "call" and ev.recv is not None and ev.recv.k == "F" and ev.short in ("insert", "erase", "push_back", "clear", "pop_back",
                                                                                         "append", "replace", "assign", "swap", "push_front"):
            t = ev.recv
            while t.k == "F":
                t = t.a[0]
            if t.k not in ("L", "T", "new") and "set<" not in self.fty.get(ev.recv.a[1], ""):
                self.changed(st, ("change", ev.recv.a[1]))
        return self.seq_call(A, st, ev)


def check():
    c = Check("C06", "proof", "every path of every mutating operation of every node class, started on a read-only node: ends in an "
              "exception, and nothing is changed before it")
    P = Program(["dom"])
    mon = Mon(); mon.P = P
    mon.fty = {}
    for r in P.recs.values():
        for f in r.get("fields", []):
            t = f["ty"].replace("const ", "").strip()
            if mon.fty.get(f["name"]) not in (None,) and mon.fty[f["name"]] in SCALAR:
                mon.fty[f["name"]] = t
            mon.fty.setdefault(f["name"], t)
    classes = concrete(P)
    for need in KINDS:
        if need not in classes:
            raise Broken("node class %s not found" % need)
    nops = npaths = 0

    def eng(this, rec):
        A = AbsInt(P, mon, max_steps=60000); A.exact[this] = rec
        return A

    def start():
        st = State(); st.mon = ()
        return st

    for nm, rec in sorted(classes.items()):
        this = mk("N", nm)
        f = final(P, rec, "setReadOnly", 1)
        A = eng(this, rec)
        outs = A.run(f, this=this, args=[C(1)], st=start())
        states = {}
        for o in outs:
            if o.kind != "ret":
                c.ob("%s can be made read-only" % nm, False, f.loc, str(o.exc)); continue
            fs = {l: v for l, v in o.st.store.items() if l.k == "F" and contains(l, this) and v.k == "c" and v.a[0] == 1}
            states[frozenset(fs.items())] = fs
        if not states:
            raise Broken("setReadOnly of " + nm)
        # exactly one abstract read-only state
        ro = None
        for fs in states.values():
            ro = fs if ro is None else {l: v for l, v in ro.items() if fs.get(l) is v}
        c.ob("%s remembers that it is read-only" % nm, bool(ro), f.loc, str(ro))
        if not ro:
            continue

        def ops(holder, hrec, table, prefix, ro=ro):
            nonlocal nops, npaths
            for op, n in table:
                g = final(P, hrec, op, n)
                if g is None:
                    continue
                nops += 1
                if op in CHILD_OPS:
                    changes = "NodeImplWithChildren" in [P.rname(b).split("<")[0] for b in P.bases(rec)]
                elif op == "setNodeValue":
                    changes = KINDS.get(nm) in (2, 3, 4, 7, 8)
                elif op == "setPrefix":
                    changes = nm in ("ElementNSImpl", "AttrNSImpl")
                else:
                    changes = True
                s = start(); s.store.update(ro)
                A = eng(holder, hrec); A.exact[this] = rec
                what = "%s%s" % (prefix, op)
                try:
                    outs = A.run(g, this=holder, st=s.copy())
                except Broken:
                    # too many paths: they begin once something has been changed, or the check cannot answer
                    A = eng(holder, hrec); A.exact[this] = rec
                    mon.first = True
                    try:
                        A.run(g, this=holder, st=s)
                    except Changed as e:
                        c.ob("%s leaves a read-only node unchanged" % what, False, g.loc, str(e))
                        continue
                    finally:
                        mon.first = False
                    raise
                if not outs:
                    raise Broken("no path through " + what)
                for o in outs:
                    npaths += 1
                    if o.st.mon:
                        c.ob("%s leaves a read-only node unchanged" % what, False, g.loc, "%s %s" % (o.st.mon, o.exc or "returns"))
                        continue
                    c.ob("%s leaves a read-only node unchanged" % what, True, g.loc)
                    if o.kind == "ret" and changes:
                        # setting an attribute that is already there asks for nothing
                        c.ob("%s on a read-only node fails" % what, op in SAME_OK and o.val is mk("p", 0), g.loc, "returns %s" % o.val)
                if changes:
                    codes = {dom_code(o.exc) for o in outs if o.kind == "throw"}
                    c.ob("%s on a read-only node raises no-modification-allowed" % what, CODES["NO_MODIFICATION_ALLOWED_ERR"] in codes, g.loc,
                         str([CODE_NAME.get(x, x) for x in codes]))
        ops(this, rec, OPS, nm + "::")
        # the maps the node hands out
        for getter in ("getAttributes", "getEntities", "getNotations"):
            g = final(P, rec, getter, 0)
            if g is None:
                continue
            starts = [(None, None, start())]
            if any("::NamedNodeMapImpl" in fl["ty"] for b in P.bases(rec) for fl in P.recs[b].get("fields", [])):
                starts = construct(P, A, rec, this, mon)      # maps that are read-only from the beginning
            for f2, args, st in starts:
                s = st.copy(); s.mon = (); s.store.update(ro)
                A = eng(this, rec)
                for o in A.run(g, this=this, st=s):
                    if o.kind != "ret" or o.val.k == "c":
                        continue
                    holder = o.val
                    hrec = A.exact.get(holder) or next((fl["rec"] for b in P.bases(rec) for fl in P.recs[b].get("fields", [])
                                                        if holder.k == "F" and fl["name"] == holder.a[1]), None)
                    if hrec is None:
                        raise Broken("map answered by %s of %s: %s" % (getter, nm, holder))
                    own = {l: v for l, v in s.store.items() if l.k == "F" and l.a[0] is holder and v.k == "c" and v.a[0] == 1}
                    ops(holder, hrec, MAP_OPS, "%s of %s: " % (getter, nm), {**ro, **own})
    c.floor("operations", nops, 120)
    c.floor("paths", npaths, 200)
    return c.finish()
