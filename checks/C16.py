"""XPath axes: the nodes of each axis, in axis order."""
from arx.prog import Program, Broken
from arx.absint import C, NULL
from arx.report import Check
from arx.dom import Failed, guarded
from arx.tree import Trees, TreeMon, lit

AX = "Arabica::XPath::AxisEnumerator"; ND = "Arabica::DOM::Node"
XMLNS = "http://www.w3.org/2000/xmlns/"; XML = "http://www.w3.org/XML/1998/namespace"
AXES = ("ANCESTOR", "ANCESTOR_OR_SELF", "ATTRIBUTE", "CHILD", "DESCENDANT", "DESCENDANT_OR_SELF", "FOLLOWING", "FOLLOWING_SIBLING",
        "NAMESPACE", "PARENT", "PRECEDING", "PRECEDING_SIBLING", "SELF")
REVERSE = ("ANCESTOR", "ANCESTOR_OR_SELF", "PARENT", "PRECEDING", "PRECEDING_SIBLING")


class Mon(TreeMon):
    roots = TreeMon.roots + ("::XPath::",)


# a document in which every node has every kind of neighbour
BIG = [("c", "c0", "before"), ("p", "p0", "pi"),
       ("e", "r", "r", [("@x", None, "x", "1"), ("@ns", XMLNS, "xmlns:p", "urn:p"), ("@def", XMLNS, "xmlns", "urn:d"), ("@y", "urn:y", "y:y", "2")], [
           ("t", "t1", "a"), ("d", "d1", "b"), ("t", "t1b", "c"),
           ("e", "e1", "e", [("@p2", XMLNS, "xmlns:p", "urn:q"), ("@q", XMLNS, "xmlns:q", "urn:q"), ("@nodef", XMLNS, "xmlns", "")], [
               ("t", "t2", "c"), ("c", "c1", "cm"), ("d", "d2", "x"),
               ("e", "e2", "f", [("@only", XMLNS, "xmlns:z", "urn:z")], []),
               ("e", "e3", "g", [("@a", None, "a", "1"), ("@b", None, "b", "2"), ("@c", None, "c", "3")], [("e", "e4", "h", [], [("p", "p1", "pi"), ("t", "t3", "deep"), ("t", "t3b", "deep")])])]),
           ("e", "e5", "i", [("@last", None, "last", "")], []),
           ("t", "t4", "x"), ("d", "d4", "y"),
           ("c", "c2", "cm"),
           ("e", "e6", "j", [], [("e", "e7", "k", [], [("e", "e8", "l")]), ("d", "d5", "tail"), ("t", "t5", "tail")]),
           ("t", "t6", "end"), ("t", "t7", "end")]),
       ("p", "p2", "pi"), ("c", "c3", "after")]
LOOSE = ("e", "lr", "r", [("@lx", None, "x", "1")], [("t", "lt1", "a"), ("e", "le1", "e", [], [("c", "lc1", "x"), ("e", "le2", "e")]), ("t", "lt2", "a"), ("t", "lt3", "a")])
FRAG = ("f", "fr", None, [], [("t", "ft1", "a"), ("t", "ft1b", "a"), ("e", "fe1", "e", [("@fx", None, "x", "1")], [("t", "ft2", "a")]), ("p", "fp", "x"), ("t", "ft3", "a")])


class Model:
    """the XPath data model of a specification"""
    def __init__(self, root, specs):
        self.parent = {}; self.kids = {root: []}; self.attrs = {}; self.kind = {root: "root"}; self.ns = {}; self.label = root
        self.rest = []
        for s in specs:
            self.add(root, s)

    def add(self, parent, s):
        kind, label = s[0], s[1]
        ks = self.kids[parent]
        if kind in "td" and ks and self.kind[ks[-1]] == "text":
            self.rest.append(label)             # further part of a text node
            return
        self.kind[label] = "text" if kind in "td" else kind
        self.parent[label] = parent; ks.append(label); self.kids[label] = []; self.attrs[label] = []
        if kind == "e":
            self.ns[label] = {}
            for al, ns, nm, v in (s[3] if len(s) > 3 else ()):
                if ns == XMLNS:
                    self.ns[label][nm.split(":")[1] if ":" in nm else ""] = v
                else:
                    self.attrs[label].append(al); self.kind[al] = "attr"; self.parent[al] = label; self.kids[al] = []
            for ch in (s[4] if len(s) > 4 else ()):
                self.add(label, ch)

    def anc(self, n):
        out = []
        while n in self.parent:
            n = self.parent[n]; out.append(n)
        return out

    def desc(self, n):
        out = []
        for k in self.kids[n]:
            out += [k] + self.desc(k)
        return out

    def sib(self, n):
        if self.kind[n] == "attr" or n not in self.parent:
            return [], []
        ks = self.kids[self.parent[n]]; i = ks.index(n)
        return ks[:i], ks[i + 1:]

    def axis(self, n, name):
        anc = self.anc(n)
        if name == "ANCESTOR": return anc
        if name == "ANCESTOR_OR_SELF": return [n] + anc
        if name == "ATTRIBUTE": return list(self.attrs.get(n, []))
        if name == "CHILD": return list(self.kids[n])
        if name == "DESCENDANT": return self.desc(n)
        if name == "DESCENDANT_OR_SELF": return [n] + self.desc(n)
        if name == "PARENT": return anc[:1]
        if name == "SELF": return [n]
        b, a = self.sib(n)
        if name == "FOLLOWING_SIBLING": return a
        if name == "PRECEDING_SIBLING": return b[::-1]
        order = [self.label] + self.desc(self.label)
        o = self.parent[n] if self.kind[n] == "attr" else n
        i = order.index(o)
        if name == "FOLLOWING":
            skip = set(self.desc(o)) if self.kind[n] != "attr" else ()
            return [x for x in order[i + 1:] if x not in skip]
        if name == "PRECEDING":
            return [x for x in reversed(order[:i]) if x not in self.anc(o)]

    def namespaces(self, n):
        if self.kind[n] != "e":
            return {}
        d = {"xml": XML}
        for a in reversed([n] + self.anc(n)):
            d.update(self.ns.get(a, {}))
        return {p: u for p, u in d.items() if u}


@guarded
def check():
    c = Check("C16", "proof", "every axis from every kind of node in documents, loose trees and fragments holding every neighbourhood of node kinds, "
              "compared with the axis as XPath 1.0 defines it; copies of enumerators included")
    P = Program(["dom", "xpath"])
    W = Trees(P, Mon())
    num = {a: P.enum_val("Arabica::XPath::" + a) for a in AXES}
    doc, st = W.new_document()
    made = {}
    for s in BIG:
        st = W.plant(st, doc, doc, s, made)
    st = W.plant(st, doc, None, LOOSE, made)
    st = W.plant(st, doc, None, FRAG, made)
    made["doc"] = doc
    big = Model("doc", BIG)
    loose = Model("nowhere", [LOOSE])
    # a tree without a document: its root is its topmost element
    loose.label = "lr"; del loose.parent["lr"]
    frag = Model("fr", FRAG[4])
    inv = {v: k for k, v in made.items()}
    where = W.P.one_rec(AX)["loc"] if "loc" in W.P.one_rec(AX) else ""
    cases = 0

    def step(outs, what):
        ok = [o for o in outs if o.kind == "ret"]
        if len(outs) != 1 or not ok:
            raise Failed(what, where, ", ".join(str(o.exc or o.val) for o in outs)[:300])
        return ok[0].st

    ndc, outs = None, None

    def proxy(st, impl, name):
        n, outs = W.obj(st, ND, name, impl, pick=lambda f: len(f.params) == 1 and "Node_impl<" in f.params[0]["ty"])
        return n, step(outs, "a node can be held")

    def drain(st, e, what, first=()):
        got = list(first)
        while len(got) < 80:
            r = W.get(st, e, "operator*")
            W.exact.setdefault(r, W.record(ND))
            v = W.get(st, r, "underlying_impl")
            if v is NULL:
                return got, st
            got.append(v)
            st = step(W.call(st, e, "operator++"), what)
        return got + ["..."], st

    for m in (big, loose, frag):
        for lab in m.kind:
            if lab not in made:
                continue
            n, s0 = proxy(st, made[lab], "ctx")
            for a in AXES:
                what = "the %s axis of %s (%s)" % (a.lower().replace("_", "-"), lab, m.kind[lab])
                e, outs = W.obj(s0, AX, "en", n, C(num[a]))
                s = step(outs, what + " can be walked")
                W.exact[e] = W.record(AX)
                fwd = W.get(s, e, "forward"), W.get(s, e, "reverse")
                if a != "PARENT" and a != "SELF":
                    c.ob("the %s axis has its direction" % a.lower().replace("_", "-"), fwd == ((C(0), C(1)) if a in REVERSE else (C(1), C(0))), where, str(fwd))
                r = W.get(s, e, "operator*")
                W.exact.setdefault(r, W.record(ND))
                got, s2 = drain(s, e, what + " can be walked to its end")
                cases += 1
                if a == "NAMESPACE":
                    g = {}
                    dup = False
                    for x in got:
                        nm, v = W.text(s, x, "getNodeName"), W.text(s, x, "getNodeValue")
                        dup = dup or nm in g
                        g[nm] = v
                        c.ob("%s: a namespace node belongs to its element" % what, W.get(s, x, "getParentNode") is made[lab], where)
                        t = W.get(s, x, "getNodeType")
                        c.ob("%s: a namespace node is of no other kind" % what, t.k == "c" and not 1 <= t.a[0] <= 12, where, str(t))
                    want = {lit(k): lit(v) for k, v in m.namespaces(lab).items()}
                    c.ob("%s: one node per prefix in scope, with the innermost URI" % what, g == want and not dup, where, "%s, expected %s" % (g, want))
                    continue
                names = [inv.get(x, str(x)) for x in got]
                want = m.axis(lab, a)
                ok = sorted(names) == sorted(want) if a == "ATTRIBUTE" else names == want
                c.ob("%s holds exactly its nodes in axis order" % what, ok, where, "%s, expected %s" % (names, want))
    # copies: independent of the original, and carry on where it was
    for lab in ("r", "e3", "c1", "@a"):
        n, s0 = proxy(st, made[lab], "ctx")
        for a in AXES:
            what = "a copied %s enumerator of %s" % (a.lower().replace("_", "-"), lab)
            e, outs = W.obj(s0, AX, "en", n, C(num[a]))
            s = step(outs, what)
            W.exact[e] = W.record(AX)
            r = W.get(s, e, "operator*"); W.exact.setdefault(r, W.record(ND))
            all_, _ = drain(s, e, what)
            if all_:
                s = step(W.call(s, e, "operator++"), what)
            f, outs = W.obj(s, AX, "en2", e, pick=lambda f: len(f.params) == 1)
            s = step(outs, what)
            rest1, s2 = drain(s, f, what)
            rest2, s2 = drain(s2, e, what)
            nm = lambda l: [inv.get(x, None) or str((W.text(st, x, "getNodeName"))) for x in l] if a != "NAMESPACE" else len(l)
            c.ob("%s carries on where the original was" % what, nm(rest1) == nm(all_[1:]), where, "%s, expected %s" % (nm(rest1), nm(all_[1:])))
            c.ob("%s leaves the original alone" % what, nm(rest2) == nm(all_[1:]), where, "%s, expected %s" % (nm(rest2), nm(all_[1:])))
            s3 = step(W.call(s2, f, "~AxisEnumerator"), what + " can be destroyed") if False else s2
            cases += 1
    c.floor("cases", cases, 500)
    c.stat("cases", cases); c.stat("runs", W.runs); c.stat("paths", W.paths)
    return c.finish()
