"""Attributes of elements: one per name, one owner each."""
from arx.prog import Program, Broken
from arx.absint import C, NULL, mk, contains
from arx.report import Check
from arx.dom import World, Failed, guarded, CODES, CODE_NAME, dom_code, merge, seq


@guarded
def check():
    c = Check("C10", "proof", "every path of every attribute operation on an element with attributes: list, owner, and orphan registration "
              "afterwards; refused requests change nothing")
    P = Program(["dom"])
    W = World(P)
    cases = 0

    def mapfield(st, e, nodes):
        f = [l for l, v in st.store.items() if l.k == "F" and contains(l, e) and l.a[0] is not e and v.k == "seq" and list(v.a) == nodes]
        if len(f) != 1:
            raise Broken("attribute list of %s: %s" % (e, f))
        return f[0]

    def orphans(st, doc):
        vs = [v for l, v in st.store.items() if l.k == "F" and l.a[0] is doc and v.k == "set"]
        return set().union(*[set(v.a) for v in vs]) if vs else set()

    def setup(ec, ac, ns):
        W.exact.clear()
        setter = "setAttributeNodeNS" if ns else "setAttributeNode"
        doc, st = W.build(W.start(), "DocumentImpl", "doc", None, 0)
        doc2, st = W.build(st, "DocumentImpl", "doc2", None, 0)
        nd = {"doc": doc, "doc2": doc2}
        for e, d in (("e", doc), ("e2", doc), ("e3", doc2)):
            nd[e], st = W.build(st, ec, e, d)
        np = 4 if "NS" in ac else 2
        for a, d in (("a1", doc), ("a2", doc), ("u", doc), ("d", doc), ("w", doc2), ("v", doc2)):
            nd[a], st = W.build(st, ac, a, d, np)
        def put(st, e, a):
            ok = [o for o in W.call(st, nd[e], setter, nd[a]) if o.kind == "ret" and o.val is NULL]
            if not ok:
                raise Failed("%s adds an attribute" % setter, W.fn(nd[e], setter, 1).loc)
            return merge([o.st for o in ok])
        st = put(st, "e", "a1"); st = put(st, "e", "a2"); st = put(st, "e2", "u"); st = put(st, "e3", "v")
        nd["list"] = mapfield(st, nd["e"], [nd["a1"], nd["a2"]])
        nd["list2"] = mapfield(st, nd["e2"], [nd["u"]])
        return nd, st

    for ec, ac, ns in (("ElementImpl", "AttrImpl", False), ("ElementNSImpl", "AttrNSImpl", True), ("ElementNSImpl", "AttrNSImpl", False)):
        nd, st = setup(ec, ac, ns)
        e, e2, a1, a2, u, d, w, v, doc = (nd[k] for k in ("e", "e2", "a1", "a2", "u", "d", "w", "v", "doc"))
        L = nd["list"]
        sfx = "NS" if ns else ""
        am = W.get(st, e, "getAttributes")
        mrec = W.A.exact.get(am) or next(f["rec"] for b in P.bases(W.exact[e]) for f in P.recs[b]["fields"] if f["name"] == am.a[1])
        W.exact[am] = mrec

        def consistent(what, f, o, new=()):
            """whatever the list is now: its members belong to e and are not orphans; the others do not"""
            s = o.st
            lst = s.store.get(L)
            if lst is None or lst.k != "seq":
                c.ob("%s: the attributes are known" % what, False, f.loc, str(lst)); return None
            lst = list(lst.a)
            orph = orphans(s, doc)
            for a in (a1, a2, d) + tuple(new):
                own = W.get(s, a, "getOwnerElement")
                if a in lst:
                    c.ob("%s: an attribute of the element names it as owner" % what, own is e, f.loc, "%s: %s" % (a, own))
                    c.ob("%s: an attribute of the element is not an orphan" % what, a not in orph, f.loc, str(a))
                elif a is not d or own is not NULL:
                    c.ob("%s: an attribute that left has no owner" % what, own is NULL, f.loc, "%s: %s" % (a, own))
                    c.ob("%s: an attribute that left is kept as an orphan" % what, a in orph, f.loc, str(a))
            c.ob("%s: no attribute is there twice" % what, len(set(lst)) == len(lst), f.loc, str(lst))
            c.ob("%s: other elements keep their attributes" % what, s.store.get(nd["list2"]) is st.store[nd["list2"]] and
                 W.get(s, u, "getOwnerElement") is e2, f.loc)
            n = W.get(s, am, "getLength")
            c.ob("%s: map length" % what, n is C(len(lst)), f.loc, str(n))
            for i, a in enumerate(lst):
                c.ob("%s: map items" % what, W.get(s, am, "item", C(i)) is a, f.loc)
            c.ob("%s: map item past the end is null" % what, W.get(s, am, "item", C(len(lst))) is NULL, f.loc)
            return lst

        def eq(s, x, y):
            A = W.engine()
            x, y = A.load(s, x), A.load(s, y)
            return True if x is y else A.truth(s, A.compare(s, "==", x, y))

        def match(what, f, o, key, hit):
            """the attribute chosen on this path is the first that has the requested name, as far as the path knows"""
            s = o.st
            for x in (a1, a2):
                if isinstance(key, tuple) or key is d:
                    if key is d:
                        uri, loc = W.get(s, d, "getNamespaceURI"), W.get(s, d, "getLocalName")
                    else:
                        uri, loc = key
                    xl = eq(s, W.get(s, x, "getLocalName"), loc)
                    xn = eq(s, W.get(s, x, "getNodeName"), loc)
                    xu = eq(s, W.get(s, x, "getNamespaceURI"), uri)
                    A = W.engine()
                    none = A.truth(s, W.get(s, x, "hasNamespaceURI")) is False and \
                        A.truth(s, A.compare(s, "==", A.size_of(A.load(s, uri)), C(0))) is True
                    yes = xu is True and xl is True or none and (xl is True or xn is True)
                    no = xu is False or xl is False
                else:
                    t = eq(s, W.get(s, x, "getNodeName"), key)
                    yes, no = t is True, t is False
                if x is hit:
                    c.ob("%s: the attribute chosen has the requested name" % what, yes, f.loc, str(x))
                    break
                c.ob("%s: an attribute with the requested name is not passed over" % what, no, f.loc, "%s" % x)

        def same(what, f, o):
            for l in (L, nd["list2"]):
                c.ob("%s: nothing changed" % what, o.st.store.get(l) is st.store[l], f.loc, str(o.st.store.get(l)))
            for a in (a1, a2, u, d, w, v):
                c.ob("%s: owners unchanged" % what, W.get(o.st, a, "getOwnerElement") is W.get(st, a, "getOwnerElement"), f.loc, str(a))
                for dd in (doc, nd["doc2"]):
                    c.ob("%s: orphans unchanged" % what, (a in orphans(o.st, dd)) == (a in orphans(st, dd)), f.loc, str(a))

        sets = [(e, "setAttributeNode" + sfx), (am, "setNamedItem" + sfx)]
        for obj, op in sets:
            f = W.fn(obj, op, 1)
            what = op
            seen = set()
            for o in W.call(st, obj, op, d):
                cases += 1
                c.ob("%s of a free attribute succeeds" % what, o.kind == "ret", f.loc, str(o.exc))
                if o.kind != "ret": continue
                lst = consistent(what, f, o)
                want = {NULL: [a1, a2, d], a1: [d, a2], a2: [a1, d]}.get(o.val)
                c.ob("%s replaces the attribute it answers" % what, lst == want, f.loc, "%s answers %s" % (lst, o.val))
                seen.add(o.val)
                match(what, f, o, d if ns else W.get(o.st, d, "getNodeName"), o.val if o.val is not NULL else None)
            c.ob("%s can add, and replace any attribute" % what, seen == {NULL, a1, a2}, f.loc, str(seen))
            for x, nm, codes in ((u, "in use by another element", {10}), (w, "of another document", {4}), (v, "in use in another document", {4, 10})):
                for o in W.call(st, obj, op, x):
                    cases += 1
                    c.ob("%s refuses an attribute %s" % (what, nm), o.kind == "throw" and dom_code(o.exc) in codes, f.loc, str(o))
                    same("%s refused" % what, f, o)
            for o in W.call(st, obj, op, a1):
                cases += 1
                c.ob("%s of an attribute already there changes nothing" % what, o.kind == "ret" and o.val is a1, f.loc, str(o))
                same("%s of an attribute already there" % what, f, o)
        # set by name
        op = "setAttribute" + sfx
        for ob_, op, args in ((e, op, (mk("p", 0), mk("p", 1), mk("p", 2))[:3 if ns else 2]),):
            f = W.fn(e, op, len(args))
            got = set()
            for o in W.call(st, e, op, *args):
                cases += 1
                if o.kind != "ret":
                    same("%s refused" % op, f, o); continue
                lst0 = o.st.store.get(L)
                new = [x for x in (lst0.a if lst0 is not None and lst0.k == "seq" else ()) if x.k == "new"]
                for x in new:
                    W.exact[x] = W.classes["AttrNSImpl" if ns else "AttrImpl"]
                lst = consistent(op, f, o, new)
                if lst is None: continue
                c.ob("%s puts one new attribute in" % op, len(new) == 1 and (lst == [a1, a2] + new or lst == [a1] + new or lst == new + [a2]), f.loc, str(lst))
                got.add(tuple("+" if x in new else "." for x in lst))
                for x in new:
                    kids = [vv for l, vv in o.st.store.items() if l.k == "F" and l.a[0] is x and vv.k == "seq"]
                    txt = kids[0].a[0] if kids and len(kids[0].a) == 1 else None
                    if txt is not None:
                        W.exact[txt] = W.classes["TextImpl"]
                        val = W.get(o.st, txt, "getData")
                        c.ob("%s: the new attribute holds the value" % op, contains(val, args[-1]) or any(
                            contains(vv, args[-1]) for l, vv in o.st.store.items() if l is val), f.loc, str(val))
                    else:
                        c.ob("%s: the new attribute has one text child" % op, False, f.loc, str(kids))
                    W.exact.pop(x, None); W.exact.pop(txt, None)
            c.ob("%s can add and replace" % op, {len(g) for g in got} == {2, 3}, f.loc, str(got))
        # removal
        rem = [(e, "removeAttribute" + sfx, None), (am, "removeNamedItem" + sfx, None)]
        if not ns or True:
            rem += [(e, "removeAttributeNode", a1), (e, "removeAttributeNode", a2)]
        for obj, op, arg in rem:
            args = (arg,) if arg is not None else (mk("p", 0), mk("p", 1))[:2 if op.endswith("NS") else 1]
            f = W.fn(obj, op, len(args))
            seen = set()
            for o in W.call(st, obj, op, *args):
                cases += 1
                if o.kind == "throw":
                    c.ob("%s of an absent attribute raises not-found" % op, dom_code(o.exc) == 8, f.loc, str(o.exc))
                    c.ob("%s of a present attribute succeeds" % op, arg is None or "NS" in ac, f.loc, str(o.exc))
                    same("%s refused" % op, f, o); continue
                lst = consistent(op, f, o)
                if lst is None: continue
                gone = [x for x in (a1, a2) if x not in lst]
                if arg is None and len(gone) == 1:
                    match(op, f, o, args if len(args) == 2 else args[0], gone[0])
                c.ob("%s removes one attribute and answers it" % op, len(gone) == 1 and lst == [x for x in (a1, a2) if x not in gone] and
                     (o.val.k == "void" or o.val is gone[0]) and (arg is None or gone == [arg] or "NS" in ac), f.loc, "%s answers %s" % (lst, o.val))
                seen |= set(gone)
                if len(gone) == 1:
                    # a removed attribute is free again
                    setter = "setAttributeNode" + sfx
                    for o2 in W.call(o.st, e2, setter, gone[0]):
                        cases += 1
                        c.ob("a removed attribute can be given to another element", o2.kind == "ret" and
                             W.get(o2.st, gone[0], "getOwnerElement") is e2 and gone[0] not in orphans(o2.st, doc), f.loc, str(o2))
            c.ob("%s reaches every attribute" % op, arg is not None or seen == {a1, a2}, f.loc, str(seen))
        for x, nm in ((d, "free"), (u, "another element's")):
            f = W.fn(e, "removeAttributeNode", 1)
            for o in W.call(st, e, "removeAttributeNode", x):
                cases += 1
                c.ob("removeAttributeNode of %s attribute raises not-found" % nm, o.kind == "throw" and dom_code(o.exc) == 8, f.loc, str(o))
                same("removeAttributeNode refused", f, o)
        # look-up
        for obj, op, n in ((e, "getAttributeNode" + sfx, 2 if ns else 1), (am, "getNamedItem" + sfx, 2 if ns else 1), (e, "hasAttribute" + sfx, 2 if ns else 1)):
            f = W.fn(obj, op, n)
            vals = set()
            for o in W.call(st, obj, op, *(mk("p", 0), mk("p", 1))[:n]):
                cases += 1
                c.ob("%s does not fail" % op, o.kind == "ret", f.loc, str(o.exc))
                if o.kind == "ret":
                    vals.add(o.val); same(op, f, o)
                    if not op.startswith("has"):
                        match(op, f, o, (mk("p", 0), mk("p", 1)) if ns else mk("p", 0), o.val if o.val is not NULL else None)
            c.ob("%s finds every attribute, or nothing" % op, vals == ({C(0), C(1)} if op.startswith("has") else {NULL, a1, a2}), f.loc, str(vals))
    c.floor("cases", cases, 100)
    c.stat("operations analysed", W.runs); c.stat("paths", W.paths)
    return c.finish()
