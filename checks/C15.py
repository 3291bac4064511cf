"""Views kept up to date: element lists, attribute values, elements by ID."""
from arx.prog import Program, Broken
from arx.absint import C, NULL, mk
from arx.report import Check
from arx.dom import World, Failed, guarded, merge, seq
from arx.strs import strval, cat
from checks.C14 import Mon as Base, lit


class Mon(Base):
    def distinct(self, A, st, x, y):
        return x is not y


@guarded
def check():
    c = Check("C15", "proof", "after every changing operation on a tree: element lists made before it, attribute values and elements by ID, compared with "
              "what the tree and its data now are")
    P = Program(["dom"])
    W = World(P, Mon())
    cases = 0

    def learn():
        for t, r in W.A.exact.items():
            W.exact.setdefault(t, r)

    def load(st, v):
        return W.engine().load(st, v) if v.k in ("F", "L", "T", "I", "insel", "el", "G") else v

    def make(st, doc, op, *args):
        outs = W.call(st, doc, op, *args); learn()
        ok = [o for o in outs if o.kind == "ret" and o.val in W.exact]
        if not ok or len({o.val for o in ok}) != 1:
            raise Failed("%s succeeds" % op, W.fn(doc, op, len(args)).loc, ", ".join("%s %s" % (o.val, o.exc) for o in outs))
        return ok[0].val, merge([o.st for o in ok])

    def text(st, n, obs):
        outs = W.call(st, n, obs)
        vs = {strval(load(o.st, o.val)) for o in outs if o.kind == "ret"}
        if len(vs) != 1 or any(o.kind != "ret" for o in outs):
            raise Broken("%s of %s: %s" % (obs, n, vs))
        return next(iter(vs))

    def kids(st, n):
        out = []; k = W.get(st, n, "getFirstChild")
        while k is not NULL and len(out) < 30:
            out.append(k); k = W.get(st, k, "getNextSibling")
        return out

    def below(st, n):
        out = []
        for k in kids(st, n):
            if W.get(st, k, "getNodeType") is C(1):
                out.append(k)
            out += below(st, k)
        return out

    # ---------------------------------------------------------------- element lists
    doc, st = W.build(W.start(), "DocumentImpl", "doc", None, 0)
    nd = {}
    dt, st = W.build(st, "DocumentTypeImpl", "dt0", None)
    try:
        declare = W.fn(dt, "addEntity", 1)
    except Broken:
        declare = None
    if declare is not None:
        # a reference to a declared entity holds what the entity stands for: an element within an element
        st = W.do(st, doc, "appendChild", dt)
        en = W.node("EntityImpl", "ent")
        f = next(P.fns[m["id"]] for m in P.methods(W.classes["EntityImpl"]) if m.get("kind") == "ctor" and m["id"] in P.fns and len(P.fns[m["id"]].params) == 5)
        st = merge([o.st for o in W.engine().run(f, this=en, args=[doc] + [lit(x) for x in ("ent", "pub", "sys", "")], st=st) if o.kind == "ret"])
        ea, st = make(st, doc, "createElement", lit("a")); eb, st = make(st, doc, "createElementNS", lit("urn:1"), lit("b"))
        st = W.do(st, en, "appendChild", ea); st = W.do(st, ea, "appendChild", eb)
        st = W.do(st, dt, "addEntity", en)
    def m(k, op, *a):
        nonlocal st
        nd[k], st = make(st, doc, op, *[lit(x) for x in a])
    for k in ("r", "a1", "b1", "a2", "b2"):
        m(k, "createElement", k[0])
    for k, u, q in (("p1", "urn:1", "p:a"), ("p2", "urn:2", "p:a"), ("q1", "urn:1", "q:b")):
        m(k, "createElementNS", u, q)
    m("er", "createEntityReference", "ent"); m("t", "createTextNode", "t"); m("f", "createDocumentFragment"); m("d", "createElement", "a"); m("fa", "createElement", "a"); m("fb", "createElementNS", "urn:1", "a")
    for p, k in (("r", "a1"), ("r", "t"), ("r", "b1"), ("b1", "a2"), ("b1", "p1"), ("p1", "b2"), ("r", "p2"), ("p2", "q1"), ("f", "fa"), ("f", "fb")):
        st = W.do(st, nd[p], "appendChild", nd[k])
    st = W.do(st, doc, "appendChild", nd["r"])
    inv = {v: k for k, v in nd.items()}; inv[NULL] = "null"
    lists = []; memo = {}
    for root in ("doc", "r", "b1", "f", "d"):
        if root == "f":
            continue
        ro = doc if root == "doc" else nd[root]
        for args in (("a",), ("b",), ("p:a",), ("*",), ("none",), ("urn:1", "a"), ("urn:2", "a"), ("*", "a"), ("urn:1", "*"), ("*", "*"), ("urn:3", "a")):
            op = "getElementsByTagName" + ("NS" if len(args) == 2 else "")
            l, st = make(st, ro, op, *[lit(x) for x in args])
            lists.append((root, ro, args, l, W.fn(ro, op, len(args)).loc))

    def want(st, ro, args):
        out = []
        if memo.get("st") is not st:
            memo.clear(); memo["st"] = st
        if ("below", ro) not in memo:
            memo["below", ro] = below(st, ro)
        for e in memo["below", ro]:
            if e not in memo:
                memo[e] = [text(st, e, x) for x in ("getNodeName", "getNamespaceURI", "getLocalName")]
            n, u, l = memo[e]
            if len(args) == 1:
                if args[0] == "*" or n is lit(args[0]):
                    out.append(e)
            else:
                if (args[0] == "*" or u is lit(args[0])) and (args[1] == "*" or l is lit(args[1])):
                    out.append(e)
        return out

    def sizes(st, l):
        v = W.get(st, l, "getLength")
        while v.k == "cast":
            v = v.a[-1]
        return v

    def compare(st, what):
        nonlocal cases
        tree = {}
        for root, ro, args, l, where in lists:
            w = want(st, ro, args)
            n = sizes(st, l)
            label = "%s: the list of %s below %s" % (what, "/".join(args), root)
            c.ob(label + " has the right length", n is C(len(w)), where, "%s, expected %d" % (n, len(w)))
            got = [W.get(st, l, "item", C(i)) for i in range(len(w) + 1)]
            c.ob(label + " is in document order and complete", got == w + [NULL], where, str([inv.get(g, str(g)) for g in got]))
            cases += 1
    compare(st, "at first")

    def warm(st):
        """every list has answered since the last change"""
        for root, ro, args, l, where in lists:
            ok = [o.st for o in W.call(st, l, "getLength") if o.kind == "ret"]
            st = merge(ok)
        return st
    st = warm(st)
    r = nd
    CHANGES = [
        ("append", (("r", "appendChild", "d"),)), ("insert", (("b1", "insertBefore", "d", "p1"),)), ("replace", (("r", "replaceChild", "d", "b1"),)),
        ("remove", (("r", "removeChild", "b1"),)), ("remove leaf", (("p1", "removeChild", "b2"),)), ("purge", (("r", "purgeChild", "b1"),)),
        ("move", (("r", "insertBefore", "p2", "a1"),)), ("move up", (("r", "appendChild", "a2"),)), ("fragment", (("b1", "insertBefore", "f", "a2"),)),
        ("replace by fragment", (("r", "replaceChild", "f", "a1"),)),
        ("remove root", (("doc", "removeChild", "r"),)), ("replace root", (("doc", "replaceChild", "d", "r"),)),
        ("prefix", (("p1", "setPrefix", "=a"),)), ("prefix to match", (("q1", "setPrefix", "=p"),)),
        ("remove and put back", (("r", "removeChild", "b1"), ("r", "insertBefore", "b1", "a1"))),
        ("swap subtrees", (("p2", "replaceChild", "b1", "q1"), ("b1", "appendChild", "q1"))),
        ("remove from detached", (("r", "removeChild", "b1"), ("b1", "removeChild", "a2"), ("r", "appendChild", "b1"))),
        ("append text", (("b1", "appendChild", "t"),)),
        ("entity reference with elements", (("b1", "insertBefore", "er", "p1"), ("a1", "appendChild", "er"), ("a1", "removeChild", "er"))),
    ]
    inv[doc] = "doc"
    for what, ops in CHANGES:
        s = st; stale = set()
        for i, op in enumerate(ops):
            ro = doc if op[0] == "doc" else nd[op[0]]
            a = [lit(x[1:]) if x.startswith("=") else nd[x] for x in op[2:]]
            s = W.do(s, ro, op[1], *a)
            if what == "purge":
                keep = lists
                lists = [l for l in lists if l[0] != "b1"]
            compare(s, what if len(ops) == 1 else "%s, step %d" % (what, i + 1))
            if i + 1 < len(ops):
                s = warm(s)
            if what == "purge":
                lists = keep

    # ---------------------------------------------------------------- attribute values
    for cls in ("AttrImpl", "AttrNSImpl"):
        W.exact.clear()
        doc, st = W.build(W.start(), "DocumentImpl", "doc", None, 0)
        at, st = make(st, doc, "createAttribute", lit("at")) if cls == "AttrImpl" else make(st, doc, "createAttributeNS", lit("urn:x"), lit("at"))
        T = {}
        for k in ("x", "y", "z"):
            T[k], st = make(st, doc, "createTextNode", mk("str", k))
        er, st = make(st, doc, "createEntityReference", lit("ent"))
        st = W.do(st, at, "appendChild", T["x"]); st = W.do(st, at, "appendChild", er); st = W.do(st, at, "appendChild", T["y"])
        el, st = make(st, doc, "createElement", lit("el"))
        outs = [o for o in W.call(st, el, "setAttributeNodeNS" if cls == "AttrNSImpl" else "setAttributeNode", at) if o.kind == "ret" and o.val is NULL]
        st = merge([o.st for o in outs])
        where = W.fn(at, "getNodeValue", 0).loc

        def value(st, what):
            nonlocal cases
            now = cat(*[strval(load(st, W.get(st, k, "getNodeValue"))) for k in kids(st, at) if W.get(st, k, "getNodeType") is C(3)])
            for o in W.call(st, at, "getNodeValue"):
                v = strval(load(o.st, o.val)) if o.kind == "ret" else o.exc
                c.ob("%s: %s: the value of an attribute is the text of its children" % (cls, what), v is now, where, "%s, expected %s" % (v, now))
                st = o.st
            for obs in ("getValue",):
                v = text(st, at, obs)
                c.ob("%s: %s: getValue agrees" % (cls, what), v is now, where, "%s, expected %s" % (v, now))
            cases += 1
            return st
        st = value(st, "at first")
        D = mk("str", "new")
        for what, ops in (("append", ((at, "appendChild", T["z"]),)), ("insert", ((at, "insertBefore", T["z"], T["x"]),)),
                          ("replace", ((at, "replaceChild", T["z"], T["x"]),)), ("remove", ((at, "removeChild", T["x"]),)), ("purge", ((at, "purgeChild", T["x"]),)),
                          ("move", ((at, "appendChild", T["x"]),)),
                          ("setNodeValue", ((at, "setNodeValue", D),)), ("setValue", ((at, "setValue", D),)),
                          ("text changed", ((T["x"], "setNodeValue", D),)), ("text appended", ((T["x"], "appendData", D),)),
                          ("text taken away", ((el, "appendChild", T["x"]),)), ("set then changed", ((at, "setNodeValue", D), (at, "appendChild", T["z"]))),
                          ("remove then put back", ((at, "removeChild", T["x"]), (at, "insertBefore", T["x"], T["y"])))):
            s = st
            for o_, op, *a in ops:
                s = W.do(s, o_, op, *a)
                s = value(s, what)
        s = W.do(st, at, "setNodeValue", D)
        c.ob("%s: setting the value leaves one text child" % cls, [W.get(s, k, "getNodeType") for k in kids(s, at)] == [C(3)], where)
        for a in (T["x"], T["y"], er):
            c.ob("%s: setting the value detaches the old children" % cls, W.get(s, a, "getParentNode") is NULL, where)

    # ---------------------------------------------------------------- elements by ID
    W.exact.clear()
    doc, st = W.build(W.start(), "DocumentImpl", "doc", None, 0)
    dt, st = W.build(st, "DocumentTypeImpl", "dt", None)
    idop = None
    try:
        idop = W.fn(dt, "addElementId", 1)
    except Broken:
        pass
    if idop is not None:
        st = W.do(st, dt, "addElementId", lit("id"))
        st = W.do(st, doc, "appendChild", dt)
        nd = {}
        for k in ("r", "e", "g"):
            nd[k], st = make(st, doc, "createElement", lit(k))
        st = W.do(st, doc, "appendChild", nd["r"]); st = W.do(st, nd["r"], "appendChild", nd["e"]); st = W.do(st, nd["e"], "appendChild", nd["g"])
        where = W.fn(doc, "getElementById", 1).loc

        def byid(st, what, table):
            nonlocal cases
            for v in ("one", "two", "three"):
                outs = W.call(st, doc, "getElementById", lit(v))
                got = {o.val if o.kind == "ret" else str(o.exc) for o in outs}
                w = nd[table[v]] if v in table else NULL
                c.ob("by ID, %s: the element whose ID is %s" % (what, v), got == {w}, where, "%s, expected %s" % (", ".join(map(str, got)), w))
                cases += 1
        byid(st, "at first", {})
        s1 = W.do(st, nd["g"], "setAttribute", lit("id"), lit("one"))
        byid(s1, "set", {"one": "g"})
        s1 = W.do(s1, nd["e"], "setAttribute", lit("other"), lit("two"))
        byid(s1, "another attribute", {"one": "g"})
        s2 = W.do(s1, nd["e"], "setAttribute", lit("id"), lit("two"))
        byid(s2, "two elements", {"one": "g", "two": "e"})
        byid(W.do(s2, nd["g"], "setAttribute", lit("id"), lit("three")), "changed", {"three": "g", "two": "e"})
        byid(W.do(s2, nd["g"], "removeAttribute", lit("id")), "removed", {"two": "e"})
        an = [o.val for o in W.call(s2, nd["g"], "getAttributeNode", lit("id"))][0]; learn()
        byid(W.do(s2, an, "setNodeValue", lit("three")), "value changed", {"three": "g", "two": "e"})
        byid(W.do(s2, nd["g"], "removeAttributeNode", an), "attribute node removed", {"two": "e"})
        a2, s3 = make(s2, doc, "createAttribute", lit("id"))
        s3 = W.do(s3, a2, "setNodeValue", lit("three"))
        byid(s3, "attribute made", {"one": "g", "two": "e"})
        byid(W.do(s3, nd["g"], "setAttributeNode", a2), "attribute node replaced", {"three": "g", "two": "e"})
        s4 = W.do(W.do(s2, nd["g"], "removeAttributeNode", an), nd["e"], "setAttribute", lit("id"), lit("one"))
        byid(s4, "removed, then another element has it", {"one": "e"})
        byid(W.do(s4, nd["g"], "setAttribute", lit("id"), lit("two")), "exchanged", {"one": "e", "two": "g"})
        s4 = W.do(W.do(s2, nd["g"], "removeAttributeNode", an), nd["e"], "setAttributeNode", an)
        byid(s4, "attribute node moved to another element", {"one": "e"})
        byid(W.do(W.do(s2, nd["g"], "removeAttribute", lit("id")), nd["e"], "setAttribute", lit("id"), lit("one")), "removed by name, then another element has it", {"one": "e"})
        byid(W.do(s2, nd["r"], "purgeChild", nd["e"]), "purged", {})
        byid(W.do(s2, nd["e"], "purgeChild", nd["g"]), "leaf purged", {"two": "e"})
    c.floor("cases", cases, 500)
    c.stat("cases", cases); c.stat("runs", W.runs); c.stat("paths", W.paths)
    return c.finish()
