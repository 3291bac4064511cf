"""Making, cloning and importing nodes."""
from arx.prog import Program, Broken
from arx.absint import C, NULL, mk, contains
from arx.report import Check
from arx.dom import World, WorldMon, Failed, guarded, CODES, CODE_NAME, KINDS, TYPE_NAMES, dom_code, merge
from arx.strs import StrIter, strval
from arx import spec_xml10 as X


def within(n, ivs):
    return any(a <= n <= b for a, b in ivs)


class Mon(StrIter, WorldMon):
    """character classification by the library's character tables is a fact about the character, true or false"""
    def load(self, A, st, loc):
        if loc.k == "F" and loc.a[1] in ("first", "second"):
            v = st.store.get(loc.a[0])
            if v is not None and v.k == "pair":
                return v.a[loc.a[1] == "second"]
        return super().load(A, st, loc)

    def on_call(self, A, st, ev):
        if ev.name == "std::make_pair" and len(ev.vals) == 2:
            return [(st, mk("pair", *ev.vals))]
        short = ev.name.rsplit("::", 1)[-1]
        if ev.name.startswith("Arabica::XML::is_") and len(ev.vals) == 1:
            x = ev.vals[0]
            while x.k == "cast":
                x = x.a[-1]
            table = {"is_name_char": X.NAME_CHAR, "is_char": X.CHAR, "is_ncname_char": X.NCNAME_CHAR, "is_letter": X.LETTER, "is_space": X.SPACE}.get(short)
            if x.k == "c" and table is not None:
                return [(st, C(within(x.a[0], table)))]
            out = []
            for b in (True, False):
                s = st.copy()
                if (short, x, not b) in s.mon:
                    continue
                s.mon = s.mon + ((short, x, b),)
                out.append((s, C(b)))
            return out
        r = self.str_call(A, st, ev)
        return r if r is not None else WorldMon.on_call(self, A, st, ev)


def lit(x):
    return mk("s", x)


NAMES = {"text": "#text", "comment": "#comment", "CDATA section": "#cdata-section", "document": "#document", "document fragment": "#document-fragment"}
PREDICATES = {"name": "is_name_char", "text": "is_char"}


@guarded
def check():
    c = Check("C14", "proof", "for every creating, cloning and importing operation of a document, on every path: kind, name, value, namespace, owner, "
              "parent and orphan registration of the result, compared with what was asked for or copied")
    P = Program(["dom"])
    W = World(P, Mon())

    def orphans(st, doc):
        vs = [v for l, v in st.store.items() if l.k == "F" and l.a[0] is doc and v.k == "set"]
        return set().union(*[set(v.a) for v in vs]) if vs else set()

    def learn(outs):
        for t, r in W.A.exact.items():
            W.exact.setdefault(t, r)
        for o in outs:
            if o.kind == "ret" and o.val in W.exact:
                W.cls.setdefault(o.val, P.rname(W.exact[o.val]).split("<")[0])

    def val(st, n, obs):
        got = set()
        for o in W.call(st, n, obs):
            if o.kind != "ret":
                got.add(str(o.exc)); continue
            v = o.val
            if v.k in ("F", "L", "T", "I", "insel", "el", "G"):
                v = W.engine().load(o.st, v)
            if v.k == "insel":
                v = v.a[0]
            got.add(strval(v) if v.k not in ("c",) else v)
        if len(got) != 1:
            raise Broken("%s of %s answers %s" % (obs, n, got))
        return next(iter(got))

    def literal(v):
        """a literal for a character sequence of known characters"""
        if v.k == "seq" and all(x.k == "c" for x in v.a):
            return lit("".join(chr(x.a[0]) for x in v.a))
        return v

    def basic(st, n):
        t = W.get(st, n, "getNodeType")
        return (t.a[0] if t.k == "c" else str(t),) + tuple(literal(val(st, n, o)) for o in ("getNodeName", "getNodeValue", "getNamespaceURI", "getPrefix", "getLocalName"))

    def kids(st, n):
        out = []; k = W.get(st, n, "getFirstChild")
        while k is not NULL and len(out) < 20:
            if k not in W.exact:
                raise Broken("child %s of unknown class" % k)
            out.append(k); k = W.get(st, k, "getNextSibling")
        return out

    def attrs(st, n):
        am = W.get(st, n, "getAttributes")
        if am is NULL:
            return []
        if am not in W.exact:
            W.exact[am] = W.A.exact.get(am) or next(f["rec"] for b in P.bases(W.exact[n]) for f in P.recs[b]["fields"] if f["name"] == am.a[1])
        return [W.get(st, am, "item", C(i)) for i in range(W.get(st, am, "getLength").a[0])]

    def same(st, x, y, what, where, deep, doc, top=True):
        """y (in state st) is a copy of x; returns nodes of the copy"""
        bx, by = basic(st, x), basic(st, y)
        tn = TYPE_NAMES.get(bx[0], "node")
        for i, lab in enumerate(("kind", "name", "value", "namespace URI", "prefix", "local name")):
            if i == 2 and bx[0] in (5, 6, 9, 11):
                continue
            c.ob("%s: %s of a copied %s" % (what, lab, tn), bx[i] == by[i] if i == 0 else bx[i] is by[i], where, "%s, was %s" % (by[i], bx[i]))
        c.ob("%s: the copied %s belongs to the right document" % (what, tn), W.get(st, y, "getOwnerDocument") is doc, where)
        if top:
            c.ob("%s: the copied %s has no parent" % (what, tn), W.get(st, y, "getParentNode") is NULL, where)
            c.ob("%s: the copied %s is freed with its document" % (what, tn), y in orphans(st, doc), where)
        nodes = [y]
        ax = [a for a in attrs(st, x) if W.get(st, a, "getSpecified") is not C(0)]; ay = attrs(st, y)
        c.ob("%s: the specified attributes of the %s are copied" % (what, tn), len(ax) == len(ay), where, "%d, were %d" % (len(ay), len(ax)))
        for a, b in zip(ax, ay):
            c.ob("%s: copied attributes are owned by the copy" % what, W.get(st, b, "getOwnerElement") is y, where)
            nodes += same(st, a, b, what, where, True, doc, False)
        kx, ky = kids(st, x), kids(st, y)
        if bx[0] == 5:                   # entity references are expanded anew
            return nodes
        if not (deep or bx[0] == 2):
            c.ob("%s: a shallow copy of the %s has no children" % (what, tn), ky == [], where, "%d" % len(ky))
            return nodes
        c.ob("%s: all children of the %s are copied" % (what, tn), len(kx) == len(ky), where, "%d, were %d" % (len(ky), len(kx)))
        for a, b in zip(kx, ky):
            c.ob("%s: children of the copied %s know their parent" % (what, tn), W.get(st, b, "getParentNode") is (y if bx[0] != 2 else y), where)
            nodes += same(st, a, b, what, where, True, doc, False)
        return nodes

    def start():
        W.exact.clear()
        a, st = W.build(W.start(), "DocumentImpl", "doc", None, 0)
        b, st = W.build(st, "DocumentImpl", "other", None, 0)
        return a, b, st

    def make(st, doc, op, *args):
        outs = W.call(st, doc, op, *args); learn(outs)
        ok = [o for o in outs if o.kind == "ret" and o.val in W.exact]
        if not ok or len({o.val for o in ok}) != 1:
            raise Failed("%s of a document succeeds with an acceptable name" % op, W.fn(doc, op, len(args)).loc, ", ".join(str(o.exc) for o in outs))
        return ok[0].val, merge([o.st for o in ok])

    # ---------------------------------------------------------------- factories
    X1, Y1 = mk("ch", 1), mk("ch", 2)
    for t in (X1, Y1):
        W.tyof[t] = "char"
    N, D, U = mk("seq", X1, Y1), mk("str", "data"), mk("str", "uri")
    text2 = mk("seq", mk("ch", 3), mk("ch", 4))
    for t in text2.a:
        W.tyof[t] = "char"
    FACT = [  # operation, arguments, kind, expected name and value, names to be checked
        ("createElement", (N,), 1, N, None), ("createTextNode", (D,), 3, lit("#text"), D), ("createComment", (D,), 8, lit("#comment"), D),
        ("createCDATASection", (D,), 4, lit("#cdata-section"), D), ("createProcessingInstruction", (N, text2), 7, N, text2),
        ("createAttribute", (N,), 2, N, None), ("createEntityReference", (N,), 5, N, None), ("createDocumentFragment", (), 11, lit("#document-fragment"), None),
        ("createElementNS", (U, N), 1, N, None), ("createAttributeNS", (U, N), 2, N, None)]
    cases = 0
    for op, args, kind, name, value in FACT:
        doc, other, st = start()
        outs = W.call(st, doc, op, *args); learn(outs)
        where = W.fn(doc, op, len(args)).loc
        ok = [o for o in outs if o.kind == "ret"]
        c.ob("%s: succeeds" % op, bool(ok), where)
        for o in outs:
            facts = o.st.mon
            bad = [x for (p, x, b) in facts if not b]
            if o.kind != "ret":
                code = dom_code(o.exc)
                if op.endswith("NS") and code == CODES["NAMESPACE_ERR"]:
                    continue
                c.ob("%s: refusals are INVALID_CHARACTER_ERR" % op, code == CODES["INVALID_CHARACTER_ERR"], where, CODE_NAME.get(code, str(o.exc)))
                c.ob("%s: refuses only characters that may not be used" % op, bool(bad), where, str(facts))
                c.ob("%s: a refusal creates no node" % op, orphans(o.st, doc) == set(), where)
                continue
            if N in args:
                c.ob("%s: every character of the name is checked" % op, all(("is_name_char", x, True) in facts for x in N.a), where, str(facts))
            if text2 in args:
                c.ob("%s: every character of the data is checked" % op, all(("is_char", x, True) in facts for x in text2.a), where, str(facts))
            n = o.val
            if n not in W.exact:
                c.ob("%s: answers a new node" % op, False, where, str(n)); continue
            b = basic(o.st, n)
            c.ob("%s: kind" % op, b[0] == kind, where, str(b[0]))
            c.ob("%s: name" % op, b[1] is name, where, str(b[1]))
            if value is not None:
                c.ob("%s: value" % op, b[2] is value, where, str(b[2]))
            elif kind in (1, 5, 11):
                c.ob("%s: the value is empty" % op, b[2] in (lit(""), mk("seq")), where, str(b[2]))
            if kind == 2:
                c.ob("%s: the attribute counts as specified" % op, W.get(o.st, n, "getSpecified") is C(1), where)
                c.ob("%s: the attribute has no owner" % op, W.get(o.st, n, "getOwnerElement") is NULL, where)
            if op.endswith("NS"):
                # the namespace name is kept unless the name itself fixes it (xmlns, xml) or there is none
                A = W.engine()
                empty = A.truth(o.st, A.compare(o.st, "==", A.size_of(U), C(0)))
            elif kind != 2 or True:
                c.ob("%s: no namespace" % op, b[3] in (lit(""),) and b[5] in (lit(""),), where, str(b[3:]))
            c.ob("%s: owner document" % op, W.get(o.st, n, "getOwnerDocument") is doc, where)
            c.ob("%s: no parent" % op, W.get(o.st, n, "getParentNode") is NULL, where)
            c.ob("%s: no siblings" % op, W.get(o.st, n, "getNextSibling") is NULL and W.get(o.st, n, "getPreviousSibling") is NULL, where)
            if kind in (1, 2, 5, 11):
                c.ob("%s: no children" % op, kids(o.st, n) == [], where)
            c.ob("%s: the node is freed with the document" % op, n in orphans(o.st, doc), where)
            cases += 1
        # empty names
        if N in args:
            for o in W.call(st, doc, op, *[lit("") if a is N else a for a in args]):
                c.ob("%s: an empty name is refused" % op, o.kind == "throw" and dom_code(o.exc) == CODES["INVALID_CHARACTER_ERR"], where, o.kind)

    # ---------------------------------------------------------------- trees to copy
    def tree(st, doc):
        """one of everything below an element"""
        nd = {}
        def m(k, op, *a):
            nonlocal st
            nd[k], st = make(st, doc, op, *a)
            return nd[k]
        m("e", "createElement", lit("e"))
        m("a", "createAttribute", lit("a")); m("at", "createTextNode", mk("str", "at")); m("at2", "createTextNode", mk("str", "at2"))
        st = W.do(st, nd["a"], "appendChild", nd["at"]); st = W.do(st, nd["a"], "appendChild", nd["at2"])
        m("d", "createAttribute", lit("d")); m("dt", "createTextNode", mk("str", "dt"))
        st = W.do(st, nd["d"], "appendChild", nd["dt"])
        m("an", "createAttributeNS", lit("urn:a"), lit("p:an")); m("ant", "createTextNode", mk("str", "ant"))
        st = W.do(st, nd["an"], "appendChild", nd["ant"])
        m("en", "createElementNS", lit("urn:e"), lit("q:en"))
        m("et", "createTextNode", mk("str", "et"))
        st = W.do(st, nd["en"], "appendChild", nd["et"])
        for k, op, a in (("t", "createTextNode", (mk("str", "t"),)), ("c", "createComment", (mk("str", "c"),)), ("cd", "createCDATASection", (mk("str", "cd"),)),
                         ("pi", "createProcessingInstruction", (lit("pi"), lit("pidata"))), ("er", "createEntityReference", (lit("er"),)),
                         ("f", "createDocumentFragment", ())):
            m(k, op, *a)
        for k in ("t", "en", "c", "cd", "er", "pi"):
            st = W.do(st, nd["e"], "appendChild", nd[k])
        m("e2", "createElement", lit("holder"))
        for el, k, op in (("e", "a", "setAttributeNode"), ("e", "d", "setAttributeNode"), ("e", "an", "setAttributeNodeNS")):
            outs = [o for o in W.call(st, nd[el], op, nd[k]) if o.kind == "ret" and o.val is NULL]
            if not outs:
                raise Failed("%s adds an attribute" % op, W.fn(nd[el], op, 1).loc)
            st = merge([o.st for o in outs])
        m("ft", "createTextNode", mk("str", "ft")); m("fe", "createElement", lit("fe")); m("fet", "createTextNode", mk("str", "fet"))
        st = W.do(st, nd["fe"], "appendChild", nd["fet"])
        st = W.do(st, nd["f"], "appendChild", nd["ft"]); st = W.do(st, nd["f"], "appendChild", nd["fe"])
        return nd, st

    def whole(st, nodes):
        """everything observable of a set of nodes"""
        out = []
        for n in nodes:
            row = [n] + list(basic(st, n)) + [W.get(st, n, "getParentNode"), W.get(st, n, "getNextSibling"), W.get(st, n, "getOwnerDocument")] + attrs(st, n)
            row += kids(st, n) if KINDS.get(W.cls.get(n)) in (1, 2, 5, 6, 9, 11) else []
            if row[1] == 2:
                row.append(W.get(st, n, "getOwnerElement"))
            out.append(tuple(map(str, row)))
        return out

    # attributes that were defaulted rather than specified are marked in the copy's source
    def unspecify(st, a):
        f = [l for l, v in st.store.items() if l.k == "F" and l.a[0] is a and v is C(1) and
             any(W.get(s2, a, "getSpecified") is C(0) for s2 in [flip(st, l)])]
        return flip(st, f[0]) if f else None

    def flip(st, l):
        s = st.copy(); s.store[l] = C(0)
        return s

    doc, other, st0 = start()
    nd, st0 = tree(st0, doc)
    st1 = unspecify(st0, nd["d"])
    if st1 is None:
        raise Broken("whether an attribute is specified is not a stored flag")
    src = [nd[k] for k in nd]
    before = whole(st1, src)

    def finished(what, where, st, y, deep, x, target):
        nodes = same(st, x, y, what, where, deep, target)
        c.ob("%s: the copy shares no node with the original" % what, not set(nodes) & set(src) and len(set(nodes)) == len(nodes), where)
        after = whole(st, src)
        c.ob("%s: the original is unchanged" % what, after == before, where, str([r[0] for r, q in zip(after, before) if r != q]))
        return nodes

    for k in ("e", "en", "a", "an", "t", "c", "cd", "pi", "er", "f", "d"):
        x = nd[k]; tn = TYPE_NAMES[basic(st1, x)[0]]
        for deep in (True, False):
            for op, target in (("cloneNode", doc), ("importNode", other)):
                what = "%s %s of a %s" % ("deep" if deep else "shallow", "clone" if op == "cloneNode" else "import", tn)
                if op == "cloneNode":
                    where = W.fn(x, op, 1).loc; outs = W.call(st1, x, op, C(deep))
                else:
                    where = W.fn(other, op, 2).loc; outs = W.call(st1, other, op, x, C(deep))
                learn(outs)
                for o in outs:
                    c.ob("%s: succeeds" % what, o.kind == "ret" and o.val in W.exact, where, str(o.exc))
                    if o.kind != "ret" or o.val not in W.exact:
                        continue
                    finished(what, where, o.st, o.val, deep, x, target)
                    if k in ("a", "an", "d"):
                        sp = W.get(o.st, o.val, "getSpecified")
                        want = C(1) if op == "importNode" else W.get(o.st, x, "getSpecified")
                        c.ob("%s: specified" % what, sp is want, where, str(sp))
                        c.ob("%s: the copy has no owner element" % what, W.get(o.st, o.val, "getOwnerElement") is NULL, where)
                    if k == "er":
                        outs2 = W.call(o.st, o.val, "appendChild", nd["t"])
                        c.ob("%s: entity references cannot be edited" % what, all(q.kind == "throw" and dom_code(q.exc) == CODES["NO_MODIFICATION_ALLOWED_ERR"]
                             for q in outs2), where)
                    cases += 1

    # ---------------------------------------------------------------- documents and document types
    doc, other, st = start()
    nd, st = tree(st, doc)
    dt, st = W.build(st, "DocumentTypeImpl", "dt", None)
    add = None
    try:
        add = W.fn(dt, "addEntity", 1)
    except Broken:
        pass
    st = W.do(st, doc, "appendChild", dt)
    pi, st = make(st, doc, "createProcessingInstruction", lit("first"), lit("x"))
    st = W.do(st, doc, "appendChild", pi)
    st = W.do(st, doc, "appendChild", nd["e"])
    cm, st = make(st, doc, "createComment", mk("str", "last"))
    st = W.do(st, doc, "appendChild", cm)
    nt, st = W.build(st, "NotationImpl", "nt", doc)
    en, st = W.build(st, "EntityImpl", "en", doc)
    et, st = make(st, doc, "createTextNode", mk("str", "entity text"))
    st = W.do(st, en, "appendChild", et)
    for n_, what in ((doc, "a document"), (dt, "a document type")):
        for deep in (True, False):
            for o in W.call(st, other, "importNode", n_, C(deep)):
                c.ob("import of %s is NOT_SUPPORTED_ERR" % what, o.kind == "throw" and dom_code(o.exc) == CODES["NOT_SUPPORTED_ERR"],
                     W.fn(other, "importNode", 2).loc, str(o.exc))
                c.ob("import of %s changes nothing" % what, orphans(o.st, other) == orphans(st, other), W.fn(other, "importNode", 2).loc)
    for n_, obs in ((nt, ("getNodeName", "getPublicId", "getSystemId")), (en, ("getNodeName", "getPublicId", "getSystemId", "getNotationName"))):
        for deep in (True, False):
            for op, target in (("importNode", other), ("cloneNode", doc)):
                what = "%s %s of a %s" % ("deep" if deep else "shallow", op[:-4], TYPE_NAMES[basic(st, n_)[0]])
                outs = W.call(st, target, op, n_, C(deep)) if op == "importNode" else W.call(st, n_, op, C(deep))
                where = W.fn(n_ if op == "cloneNode" else other, op, 1 if op == "cloneNode" else 2).loc
                learn(outs)
                for o in outs:
                    c.ob("%s: succeeds" % what, o.kind == "ret" and o.val in W.exact, where, str(o.exc))
                    if o.kind != "ret" or o.val not in W.exact:
                        continue
                    for ob in obs:
                        c.ob("%s: %s" % (what, ob), val(o.st, o.val, ob) is val(st, n_, ob), where)
                    c.ob("%s: owner" % what, W.get(o.st, o.val, "getOwnerDocument") is target, where)
                    c.ob("%s: kind" % what, W.get(o.st, o.val, "getNodeType") is W.get(st, n_, "getNodeType"), where)
                    c.ob("%s: freed with the document" % what, o.val in orphans(o.st, target), where)
                    if n_ is en:
                        ks = kids(o.st, o.val)
                        c.ob("%s: children" % what, [basic(o.st, k)[:3] for k in ks] == ([basic(st, et)[:3]] if deep else []), where, str(len(ks)))
                    if n_ is en and op == "importNode":
                        oo, s2 = make(o.st, other, "createTextNode", mk("str", "more"))
                        q2 = W.call(s2, o.val, "appendChild", oo)
                        c.ob("%s: an imported entity cannot be edited" % what, all(q.kind == "throw" for q in q2), where)
                    cases += 1
    # cloning a whole document
    src = [nd["e"]] + kids(st, nd["e"]) + attrs(st, nd["e"]) + [dt, pi, cm]
    for deep in (True, False):
        where = W.fn(doc, "cloneNode", 1).loc
        what = "%s clone of a document" % ("deep" if deep else "shallow")
        outs = W.call(st, doc, "cloneNode", C(deep)); learn(outs)
        before = whole(st, src)
        for o in outs:
            c.ob("%s: succeeds" % what, o.kind == "ret" and o.val in W.exact, where, str(o.exc))
            if o.kind != "ret" or o.val not in W.exact:
                continue
            y = o.val; ks = kids(o.st, y); kx = kids(st, doc)
            c.ob("%s: a new document" % what, y is not doc and W.get(o.st, y, "getNodeType") is C(9), where)
            c.ob("%s: a document has no owner" % what, W.get(o.st, y, "getOwnerDocument") is NULL, where)
            c.ob("%s: number of children" % what, len(ks) == (len(kx) if deep else 1), where, str(len(ks)))
            d2 = W.get(o.st, y, "getDoctype")
            c.ob("%s: the document type is copied" % what, d2 is not NULL and d2 is not dt and d2 in ks, where)
            if d2 in W.exact:
                for ob in ("getName", "getPublicId", "getSystemId"):
                    c.ob("%s: %s of the document type" % (what, ob), val(o.st, d2, ob) is val(st, dt, ob), where)
            root = W.get(o.st, y, "getDocumentElement")
            c.ob("%s: document element" % what, (root in ks) if deep else root is NULL, where)
            if deep and len(ks) == len(kx):
                for a, b in zip(kx, ks):
                    if a is not dt:
                        c.ob("%s: children know their parent" % what, W.get(o.st, b, "getParentNode") is y, where)
                        same(o.st, a, b, what, where, True, y, False)
                c.ob("%s: order of children" % what, [basic(o.st, b)[:2] for b in ks] == [basic(st, a)[:2] for a in kx], where)
            c.ob("%s: the original is unchanged" % what, whole(o.st, src) == before and kids(o.st, doc) == kx, where)
            cases += 1
    # ---------------------------------------------------------------- entity references with a known entity
    if add is not None:
        doc, other, st = start()
        dt, st = W.build(st, "DocumentTypeImpl", "dt", None)
        st = W.do(st, doc, "appendChild", dt)
        en = W.node("EntityImpl", "ent")
        f = next(P.fns[m["id"]] for m in P.methods(W.classes["EntityImpl"]) if m.get("kind") == "ctor" and m["id"] in P.fns and len(P.fns[m["id"]].params) == 5)
        A = W.engine()
        outs = [o.st for o in A.run(f, this=en, args=[doc] + [lit(x) for x in ("ent", "pub", "sys", "")], st=st) if o.kind == "ret"]
        st = merge(outs)
        t, st = make(st, doc, "createTextNode", mk("str", "replacement"))
        e, st = make(st, doc, "createElement", lit("sub"))
        st = W.do(st, en, "appendChild", t); st = W.do(st, en, "appendChild", e)
        st = W.do(st, dt, "addEntity", en)
        where = W.fn(doc, "createEntityReference", 1).loc
        r, s2 = make(st, doc, "createEntityReference", lit("ent"))
        ks = kids(s2, r)
        c.ob("an entity reference holds copies of the entity's children", [basic(s2, k) for k in ks] == [basic(st, k) for k in (t, e)] and
             not set(ks) & {t, e}, where, "%d children" % len(ks))
        c.ob("the entity keeps its children", kids(s2, en) == [t, e], where)
        z, s3 = make(s2, doc, "createTextNode", lit("z"))
        c.ob("an expanded entity reference cannot be edited", all(q.kind == "throw" and dom_code(q.exc) == CODES["NO_MODIFICATION_ALLOWED_ERR"]
             for q in W.call(s3, r, "appendChild", z)), where)
        for k in ks:
            for q in W.call(s3, k, "setNodeValue", lit("zz")) if basic(s3, k)[0] == 3 else W.call(s3, k, "appendChild", z):
                c.ob("what an entity reference stands for cannot be edited", q.kind == "throw" and dom_code(q.exc) == CODES["NO_MODIFICATION_ALLOWED_ERR"], where,
                     str(basic(s3, k)[0]))
        where = W.fn(other, "importNode", 2).loc
        for deep in (True, False):
            outs = W.call(s2, other, "importNode", r, C(deep)); learn(outs)
            for o in outs:
                c.ob("an imported reference to an entity the document does not have is empty", o.kind == "ret" and o.val in W.exact and
                     kids(o.st, o.val) == [], where, str(o.exc))
        r2, s4 = make(st, doc, "createEntityReference", lit("unknown"))
        c.ob("a reference to an unknown entity is empty", kids(s4, r2) == [], where)
    c.floor("cases", cases, 60)
    c.stat("cases", cases); c.stat("runs", W.runs); c.stat("paths", W.paths)
    return c.finish()
