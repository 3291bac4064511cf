"""The tree the SAX-to-DOM builder makes of a document's events."""
import re
from arx.prog import Program, Broken
from arx.absint import C, NULL, mk, Exc
from arx.report import Check
from arx.dom import Failed, guarded, final, merge
from arx.tree import Trees, TreeMon, lit
from arx.cont import ContModel
from arx.strs import StrIter, strval
from arx.sax import IFACE, handler_event

READER = "arx_reader"; BUILDER = "Arabica::SAX2DOM::Parser"
USER = mk("N", "user"); RESOLVER = mk("N", "resolver")
TYPE = {1: "e", 3: "t", 4: "d", 8: "c", 7: "p", 5: "r", 10: "D"}


class Mon(StrIter, ContModel):
    """the reader the builder creates delivers a prepared sequence of events to the handlers registered with it"""
    roots = TreeMon.roots + ("::SAX::", "::SAX2DOM::")

    def init(self):
        return ()

    def inline(self, A, fn, ev):
        return any(r in fn.name for r in self.roots)

    def distinct(self, A, st, x, y):
        return x is not y

    maxlen = 80
    script = (); inner = NULL; main = None

    def on_call(self, A, st, ev):
        if ev.name.startswith("Arabica::XML::is_") and len(ev.vals) == 1:
            return [(st, C(1))]
        cls = (ev.cls or "").split("<")[0]
        if self.is_reader(A, ev):
            if ev.kind == "ctor":
                A.exact[ev.recv] = ev.clsid
            if ev.kind in ("ctor", "dtor") or ev.short.startswith("~"):
                return [(st, mk("void"))]
            if ev.short.startswith("set") and ev.short.endswith("Handler") or ev.short == "setEntityResolver":
                s = st.copy(); s.store[mk("F", mk("reader"), ev.short[3:])] = ev.args[0]
                return [(s, mk("void"))]
            if ev.short == "setFeature":
                s = st.copy(); s.mon = s.mon + (("feature", strval(A.load(s, ev.args[0])), ev.vals[1]),)
                if self.refuse:
                    return [(s, Exc(A.P.one_rec("Arabica::SAX::SAXNotRecognizedException")["id"], "Arabica::SAX::SAXNotRecognizedException", None, ev.where))]
                return [(s, mk("void"))]
            if ev.short == "parse":
                return self.deliver(A, st, ev)
            raise Broken("the builder asks its reader for " + ev.short)
        if ev.recv is not None and ev.recv.k == "atts":
            return [(st, self.attribute(A, st, ev))]
        h = handler_event(ev)
        if h and ev.recv is not None and ev.recv in (USER, RESOLVER):
            s = st.copy(); s.mon = s.mon + ((ev.short, ev.recv, ev.args[0] if ev.args else None),)
            return [(s, mk("void"))]
        if cls == BUILDER and ev.clsid not in (None, self.main):
            if ev.kind == "ctor" or ev.short.startswith("~"):
                return [(st, mk("void"))]
            if ev.short == "parse":
                s = st.copy(); s.mon = s.mon + (("nested",),)
                return [(s, C(self.inner is not NULL))]
            if ev.short == "getDocument":
                t = mk("T", ev.frame.fid, ev.node); s = st.copy()
                A.exact[t] = A.exact[self.inner]
                A.copy_obj(s, self.inner, t)
                return [(s, t)]
        if ev.short in ("str", "rdbuf") or "stringstream" in (ev.cls or ""):
            return [(st, mk("void"))]
        if ev.short == "operator<<":
            s = st.copy(); s.mon = s.mon + (("written", strval(A.load(s, ev.args[-1]))),)
            return [(s, ev.args[0])]
        return ContModel.on_call(self, A, st, ev)

    refuse = False

    def is_reader(self, A, ev):
        if (ev.cls or "").split("::")[-1] == READER:
            return True
        r = A.exact.get(ev.recv) if ev.recv is not None else None
        return r is not None and A.P.recs[r]["name"] == READER

    def attribute(self, A, st, ev):
        at = ev.recv.a[0]
        if ev.short == "getLength":
            return C(len(at))
        i = ev.vals[0]
        if i.k != "c" or not 0 <= i.a[0] < len(at):
            raise Broken("attribute %s of %d" % (i, len(at)))
        uri, local, q, v = at[i.a[0]]
        return lit({"getURI": uri, "getLocalName": local, "getQName": q, "getValue": v, "getType": "CDATA"}[ev.short])

    def deliver(self, A, st, ev):
        states = [st]; out = []
        for e in self.script:
            name, args = e[0], list(e[1:])
            nxt = []
            for s in states:
                reg = IFACE[name] if IFACE[name] != "EntityResolver" else "EntityResolver"
                h = s.store.get(mk("F", mk("reader"), reg))
                if h is None or h is NULL:
                    s = s.copy(); s.mon = s.mon + (("lost", name),); nxt.append(s)
                    continue
                rec = A.exact.get(h)
                f = final(A.P, rec, name, len(args)) if rec else None
                if f is None:
                    raise Broken("handler of %s is %s" % (name, h))
                for o in A.invoke(s.copy(), ev, f, h, [lit(a) if isinstance(a, str) else a for a in args]):
                    if o.kind == "ret":
                        nxt.append(o.st)
                    else:
                        out.append((o.st, o.exc))
            states = nxt
            if len(states) > 40:
                raise Broken("the builder's behaviour depends on something the events do not say")
        return out + [(s, mk("void")) for s in states]


def atts(*a):
    return mk("atts", tuple(a))


class Ref:
    """what the events mean"""
    def __init__(self):
        self.kids = []; self.stack = [self.kids]; self.text = ""; self.cdata = False; self.dtd = None; self.depth = 0
        self.ents = {}; self.into = None; self.dead = False; self.told = []; self.ids = []

    def flush(self):
        if self.text:
            t, self.text = self.text, ""
            self.put(("d" if self.cdata else "t", t))

    refused = False

    def put(self, n):
        if self.stack[-1] is self.kids and self.into is None and not self.dead and (n[0] in "td" or n[0] == "e" and any(k[0] == "e" for k in self.kids)):
            self.dead = True; self.told.append(("fatalError", None)); self.refused = n[0] != "e"
        if self.dead or self.in_dtd and self.into is None:
            return
        tgt = self.into[-1] if self.into is not None else self.stack[-1]
        if tgt is not None:
            tgt.append(n)

    in_dtd = False

    def run(self, script):
        for e in script:
            n, a = e[0], e[1:]
            if n in ("characters", "ignorableWhitespace"):
                self.text += a[0]
                continue
            if n not in ("startDocument", "endDocument", "warning", "error", "fatalError"):
                self.flush()
            if IFACE[n] not in ("DTDHandler", "DeclHandler") or self.dtd is not None:
                getattr(self, n, lambda *a: None)(*a)
            if self.refused:
                break
        return self

    def startElement(self, uri, local, q, at):
        k = []
        self.put(("e", (uri, q), [(x[0], x[2] or x[1], x[3]) for x in at.a[0]], k))
        st = self.into if self.into is not None else self.stack
        st.append(k if st[-1] is not None else None)

    def endElement(self, *a):
        (self.into if self.into is not None else self.stack).pop()

    def comment(self, t): self.put(("c", t))
    def processingInstruction(self, t, d): self.put(("p", t, d))
    def skippedEntity(self, n): self.put(("r", n))
    def startCDATA(self): self.cdata = True
    def endCDATA(self): self.cdata = False

    def startDTD(self, n, p, s):
        self.dtd = {"name": n, "public": p, "system": s, "entities": {}, "notations": {}, "ids": set(), "defaults": {}}
        self.put(("D", n)); self.in_dtd = True

    def endDTD(self): self.in_dtd = False
    def notationDecl(self, n, p, s): self.dtd["notations"][n] = (p, s)
    def unparsedEntityDecl(self, n, p, s, d): self.dtd["entities"][n] = (p, s, d, [])

    def externalEntityDecl(self, n, p, s):
        if not n.startswith("%"):
            self.ents[n] = []; self.dtd["entities"][n] = (p, s, "", self.ents[n])

    inner = ()

    def internalEntityDecl(self, n, v):
        if not n.startswith("%"):
            self.ents[n] = [("t", v)] if "<" not in v else list(self.inner)
            self.dtd["entities"][n] = ("", "", "", self.ents[n])

    def attributeDecl(self, e, a, t, d, v):
        if t == "ID":
            self.dtd["ids"].add(a)
        if v:
            self.dtd["defaults"].setdefault(e, {})[a] = v

    def startEntity(self, n):
        self.depth += 1
        if self.depth == 1:
            e = self.ents.get(n)
            self.into = [e if e is not None and not e else None]

    def endEntity(self, n):
        self.depth -= 1
        if self.depth == 0:
            self.into = None
            if self.in_dtd or n == "[dtd]":
                return
            if self.ents.get(n):
                for k in self.ents[n]: self.put(k)
            else:
                self.put(("r", n))

    def error(self, e): self.dead = True; self.told.append(("error", e))
    def fatalError(self, e): self.dead = True; self.told.append(("fatalError", e))
    def warning(self, e): self.told.append(("warning", e))


E_ = ("startElement", "endElement")
def S(q, uri="", *at):
    return ("startElement", uri, q.split(":")[-1], q, atts(*at))
def X(q, uri=""):
    return ("endElement", uri, q.split(":")[-1], q)
def T(t): return ("characters", t)


START, END = ("startDocument",), ("endDocument",)
DTD = [("startDTD", "r", "pub", "sys"), ("comment", "in dtd"), ("processingInstruction", "pd", "d"),
       ("elementDecl", "r", "ANY"), ("attributeDecl", "r", "i", "ID", "#IMPLIED", ""), ("attributeDecl", "e", "d", "CDATA", "", "dv"),
       ("attributeDecl", "e", "d2", "NMTOKEN", "", "dw"), ("elementDecl", "e", "EMPTY"), ("attributeDecl", "r", "k", "ID", "#REQUIRED", ""),
       ("notationDecl", "n1", "np", "ns"), ("notationDecl", "n2", "", "ns2"), ("unparsedEntityDecl", "u1", "up", "us", "n1"),
       ("externalEntityDecl", "x1", "xp", "xs"), ("externalEntityDecl", "x2", "", "xs2"), ("internalEntityDecl", "i1", "plain text"),
       ("internalEntityDecl", "%pi", "<!ELEMENT q ANY>"), ("externalEntityDecl", "%px", "", "pxs"), ("skippedEntity", "%px"),
       ("startEntity", "%px"), ("elementDecl", "late", "ANY"), ("comment", "within"), ("endEntity", "%px"),
       ("startEntity", "[dtd]"), ("comment", "external subset"), ("processingInstruction", "xp", "d"), ("externalEntityDecl", "x3", "", "xs3"), ("endEntity", "[dtd]"),
       ("endDTD",)]
SCRIPTS = {
    "content of every kind": [START, ("comment", "before"), ("processingInstruction", "pi", "data"), S("r", "", ("", "a", "a", "1"), ("", "b", "b", ""), ("urn:n", "c", "n:c", "3"), ("", "qless", "", "4")),
                              T("x"), T("y"), S("e"), X("e"), T(" "), ("comment", "c"), T("z"), ("processingInstruction", "p", ""), ("ignorableWhitespace", "\n"), ("startCDATA",), T("q"), T("<&"), ("endCDATA",),
                              T("t"), ("startCDATA",), ("endCDATA",), ("skippedEntity", "sk"), S("p:f", "urn:p"), S("g"), T("deep"), X("g"), ("comment", "after g"), X("p:f", "urn:p"), S("h"), T("h"), X("h"), X("r"),
                              ("comment", "end"), ("processingInstruction", "last", "x"), END],
    "a document type": [START, ("comment", "b")] + DTD + [("processingInstruction", "after", "dtd"), S("r", "", ("", "i", "i", "id1")), S("e", "", ("", "d", "d", "given")), X("e"), X("r"), END],
    "entities": [START] + DTD + [S("r"), T("1"), ("startEntity", "x1"), T("in x1"), S("e", "", ("", "d", "d", "v"), ("", "d2", "d2", "dw")), T("ee"), X("e"), ("comment", "xc"), ("endEntity", "x1"), T("2"),
                                 ("startEntity", "x1"), T("in x1"), S("e"), T("ee"), X("e"), ("comment", "xc"), ("endEntity", "x1"),
                                 ("startEntity", "i1"), T("plain text"), ("endEntity", "i1"), ("startEntity", "none"), T("undeclared"), ("endEntity", "none"),
                                 ("startEntity", "x2"), ("startEntity", "x3"), T("nested"), ("endEntity", "x3"), T("tail"), ("endEntity", "x2"), T("3"),
                                 ("startEntity", "x2"), ("startEntity", "x3"), T("nested"), ("endEntity", "x3"), T("tail"), ("endEntity", "x2"), S("e2"), T("in"), X("e2"), X("r"), ("comment", "end"), END],
    "an error in the content": [START, S("r"), T("x"), ("error", mk("exc", 1)), T("y"), S("e"), X("e"), ("comment", "c"), ("processingInstruction", "p", "d"), ("skippedEntity", "s"),
                                ("startEntity", "q"), T("t"), ("endEntity", "q"), X("r"), END],
    "a fatal error in the content": [START, S("r"), S("e"), ("fatalError", mk("exc", 2)), X("e"), X("r"), END],
    "an error in the DTD": [START] + DTD[:4] + [("error", mk("exc", 3))] + DTD[4:] + [S("r"), X("r"), END],
    "an error before the DTD": [START, ("error", mk("exc", 5))] + DTD + [S("r"), X("r"), END],
    "an error in an entity": [START] + DTD + [S("r"), ("startEntity", "x1"), T("z"), ("error", mk("exc", 4)), ("endEntity", "x1"), T("y"), ("skippedEntity", "y"), X("r"), END],
    "a second root element": [START, S("r"), X("r"), S("r2"), T("x"), X("r2"), ("comment", "c"), END],
    "text outside the root element": [START, T("stray"), S("r"), X("r"), END],
    "an entity used before it is declared again": [START, S("r"), ("startEntity", "x1"), T("1"), ("endEntity", "x1"), ("startEntity", "i1"), T("2"), ("endEntity", "i1"), X("r"), END],
    "a warning": [START, S("r"), ("warning", mk("exc", 6)), T("x"), X("r"), END],
    "no document type, declarations ignored": [START, ("elementDecl", "r", "ANY"), ("attributeDecl", "r", "i", "ID", "", "x"), ("internalEntityDecl", "i1", "v"), ("externalEntityDecl", "i2", "", "v"),
                                               ("notationDecl", "n", "", "s"), ("unparsedEntityDecl", "u", "", "s", "n"), S("r"), X("r"), END],
}


class Bench:
    def __init__(self, c, P):
        self.c = c; self.P = P; self.mon = Mon(); self.W = Trees(P, self.mon)
        rs = [r for r in P.rec_named(BUILDER) if any(READER in str(t) for t in r.get("targs", []))]
        if len(rs) != 1:
            raise Broken("%d builders over the reader" % len(rs))
        self.rec = rs[0]["id"]; self.mon.main = self.rec

    def text(self, st, n, obs):
        v = self.W.text(st, n, obs)
        return v.a[0] if v.k == "s" else v

    def handle(self, st, v):
        A = self.W.A
        for _ in range(4):
            fs = [k for k in st.store if k.k == "F" and k.a[0] is v]
            if len(fs) != 1:
                break
            x = st.store[fs[0]]
            if x is C(0) or x is NULL or x in self.W.exact and x.k in ("new", "N"):
                return x
            v = fs[0]
        raise Broken("what a document handle holds")

    def items(self, st, m):
        n = self.W.get(st, m, "getLength")
        return [self.W.get(st, m, "item", C(i)) for i in range(n.a[0])]

    def dump(self, st, n):
        W = self.W
        t = self.W.get(st, n, "getNodeType").a[0]; k = TYPE.get(t)
        if k is None:
            raise Broken("node type %s in the tree" % t)
        nm = self.text(st, n, "getNodeName")
        if k == "e":
            ats = []
            m = W.get(st, n, "getAttributes")
            W.exact.setdefault(m, W.exact.get(m))
            for a in self.items(st, m):
                ats.append((self.text(st, a, "getNamespaceURI"), self.text(st, a, "getNodeName"), self.text(st, a, "getNodeValue")))
            return (k, (self.text(st, n, "getNamespaceURI"), nm), sorted(ats), [self.dump(st, x) for x in W.kids(st, n)])
        if k == "p":
            return (k, nm, self.text(st, n, "getNodeValue"))
        if k in "tdc":
            return (k, self.text(st, n, "getNodeValue"))
        return (k, nm)

    def builder(self, st):
        W = self.W; n = mk("N", "builder"); W.exact[n] = self.rec
        ks = [self.P.fns[m["id"]] for m in self.P.methods(self.rec) if m.get("kind") == "ctor" and m["id"] in self.P.fns]
        ks = [k for k in ks if not k.params]
        A = W.A = W.engine(); s = st.copy(); s.mon = ()
        outs = [o.st for o in A.run(ks[0], this=n, args=[], st=s) if o.kind == "ret"]
        W.learn()
        return n, merge(outs)



def show(t, n=0):
    return str(t)[:160]


def first_difference(got, want, path="document"):
    if got == want:
        return None
    if isinstance(got, list) and isinstance(want, list):
        for i, (g, w) in enumerate(zip(got, want)):
            if g != w:
                if g[0] == w[0] == "e" and g[1] == w[1]:
                    if g[2] != w[2]:
                        return "attributes of <%s>: %s, expected %s" % (g[1][1], g[2], w[2])
                    return first_difference(g[3], w[3], g[1][1])
                return "child %d of %s: %s, expected %s" % (i, path, show(g), show(w))
        return "%s has %d children, expected %d (%s)" % (path, len(got), len(want), show((got if len(got) > len(want) else want)[min(len(got), len(want)):]))
    return "%s, expected %s" % (show(got), show(want))


def with_defaults(tree, dtd):
    out = []
    for n in tree:
        if n[0] == "e":
            have = {a[1] for a in n[2]}
            d = [("", a, v) for a, v in ((dtd or {}).get("defaults", {}).get(n[1][1], {})).items() if a not in have]
            out.append(("e", n[1], sorted(n[2] + d), with_defaults(n[3], dtd)))
        else:
            out.append(n)
    return out


@guarded
def check():
    c = Check("C17", "proof", "the builder is run on event sequences holding every kind of event in every state it distinguishes (document, element, CDATA section, "
              "DTD, entity first use, later use, nested, undeclared, after an error); the tree, the document type and the error reports are compared "
              "with what the events mean")
    P = Program(["dom"])
    B = Bench(c, P); W = B.W; mon = B.mon
    parse = None

    def parse(st, b, script, what, inner=(), handlers=True, null_inner=False):
        """run one parse; returns (state, document or None, reference)"""
        mon.script = script
        r = Ref(); r.inner = inner; r.run(script)
        src = mk("N", "source")
        f = [m for m in P.method(B.rec, "parse", 1) if "InputSource" in P.fns[m["id"]].params[0]["ty"]]
        f = P.fns[f[0]["id"]]
        A = W.A = W.engine(); s = st.copy(); s.mon = ()
        outs = A.run(f, this=b, args=[src], st=s)
        W.runs += 1; W.paths += len(outs); W.learn()
        where = f.loc
        bad = [o for o in outs if o.kind != "ret"]
        c.ob("%s: parse returns" % what, not bad, where, "; ".join("%s" % o.exc for o in bad[:2]))
        outs = [o for o in outs if o.kind == "ret"]
        if not outs:
            return st, None, r
        if len({o.val for o in outs}) != 1:
            raise Broken("the outcome of the parse depends on something unknown")
        s = merge([o.st for o in outs]) if len(outs) > 1 else outs[0].st
        mons = {o.st.mon for o in outs}
        if len(mons) != 1:
            raise Broken("%s: the reports depend on something unknown: %s" % (what, [[(x[0], x[-1]) for x in m if x[0] != "feature"] for m in mons]))
        log = next(iter(mons)); s.mon = ()
        c.ob("%s: the answer tells whether there is a document" % what, outs[0].val is C(not r.dead), where, "parse answers %s" % outs[0].val)
        lost = [m[1] for m in log if m[0] == "lost"]
        c.ob("%s: every event has a handler" % what, not lost, where, ", ".join(sorted(set(lost))))
        if handlers:
            told = [(m[0], m[2]) for m in log if m[0] in ("error", "fatalError", "warning")]
            same = len(told) == len(r.told) and all(g[0] == w[0] and (w[1] is None or g[1] is w[1]) for g, w in zip(told, r.told))
            c.ob("%s: the error handler is told of what happened" % what, same, where, "told of %s, expected %s" % ([t[0] for t in told], [t[0] for t in r.told]))
        d = W.call(s, b, "getDocument"); W.learn()
        if len(d) != 1 or d[0].kind != "ret":
            raise Broken("getDocument")
        s = d[0].st
        impl = B.handle(s, d[0].val)
        empty = impl is NULL or impl is C(0)
        c.ob("%s: a document is kept only if the parse succeeded" % what, empty == r.dead, where, "the document is %s" % ("missing" if empty else "there"))
        if r.dead or empty:
            return s, None, r
        got = [B.dump(s, k) for k in W.kids(s, impl)]
        want = with_defaults(r.kids, r.dtd)
        diff = first_difference(got, want)
        c.ob("%s: the tree is what the events describe" % what, diff is None, where, diff or "")
        return s, impl, r, log, want

    def dtd(s, impl, r, what):
        dt = [k for k in W.kids(s, impl) if W.get(s, k, "getNodeType") is C(10)]
        if len(dt) != 1:
            return
        dt = dt[0]; where = W.fn(dt, "getEntities", 0).loc
        g = tuple(B.text(s, dt, x) for x in ("getName", "getPublicId", "getSystemId"))
        c.ob("%s: name and identifiers of the document type" % what, g == (r.dtd["name"], r.dtd["public"], r.dtd["system"]), where, str(g))
        c.ob("%s: the document knows its type" % what, W.get(s, impl, "getDoctype") is dt, where)
        m = W.get(s, dt, "getEntities")
        got = {}
        for e in B.items(s, m):
            got[B.text(s, e, "getNodeName")] = (B.text(s, e, "getPublicId"), B.text(s, e, "getSystemId"), B.text(s, e, "getNotationName"), [B.dump(s, k) for k in W.kids(s, e)])
        want = {k: v[:3] + (with_defaults(v[3], r.dtd),) for k, v in r.dtd["entities"].items()}
        bad = [k for k in sorted(set(got) | set(want), key=str) if got.get(k) != want.get(k)]
        c.ob("%s: entities of the document type" % what, not bad, where, "; ".join("%s: %s, expected %s" % (k, show(got.get(k)), show(want.get(k))) for k in bad[:3]))
        for op, a in (("removeNamedItem", lit("x1")),):
            outs = W.call(s, m, op, a)
            c.ob("%s: the entities are read-only" % what, outs and all(o.kind == "throw" for o in outs), where)
        m2 = W.get(s, dt, "getNotations")
        got = {B.text(s, e, "getNodeName"): (B.text(s, e, "getPublicId"), B.text(s, e, "getSystemId")) for e in B.items(s, m2)}
        c.ob("%s: notations of the document type" % what, got == r.dtd["notations"], where, str(got))

    base = W.start()
    b, base = B.builder(base)
    done = 0
    for with_handler in (True, False):
        st = base
        if with_handler:
            outs = W.call(st, b, "setErrorHandler", USER)
            st = outs[0].st
        for name, script in SCRIPTS.items():
            what = name if with_handler else name + ", without an error handler"
            res = parse(st, b, script, what, handlers=with_handler); done += 1
            if len(res) == 5 and with_handler:
                s, impl, r = res[:3]
                if r.dtd:
                    dtd(s, impl, r, name)
                if name == "a document type":
                    el = [k for k in W.kids(s, impl) if W.get(s, k, "getNodeType") is C(1)]
                    g = W.get(s, impl, "getElementById", lit("id1"))
                    c.ob("%s: attributes declared as IDs identify elements" % name, g is el[0], W.fn(impl, "getElementById", 1).loc)
    # one builder, several documents
    st = W.call(base, b, "setErrorHandler", USER)[0].st
    for n1 in ("a document type", "entities", "content of every kind", "an error in an entity", "an error in the DTD"):
        for n2 in ("an entity used before it is declared again", "no document type, declarations ignored", "a document type", "content of every kind"):
            what = "%s after %s" % (n2, n1)
            r1 = parse(st, b, SCRIPTS[n1], n1)
            r2 = parse(r1[0], b, SCRIPTS[n2], what); done += 2
            if len(r1) == 5 and len(r2) == 5:
                c.ob("%s: another document" % what, r1[1] is not r2[1])
                got = [B.dump(r2[0], k) for k in W.kids(r2[0], r1[1])]
                c.ob("%s: the earlier document is as it was" % what, got == r1[4], "", first_difference(got, r1[4]) or "")
            if len(r2) == 5 and r2[2].dtd:
                dtd(r2[0], r2[1], r2[2], what)
            elif len(r2) == 5:
                g = W.get(r2[0], r2[1], "getDoctype")
                c.ob("%s: no document type" % what, g is NULL or g is C(0))

    # entity values with markup in them are parsed on their own
    inner = ("e", "w", "w", [], [("t", "it", "in "), ("e", "ie", "b", [("@ia", None, "x", "1")], [("t", "it2", "bold")]), ("c", "ic", "cm"), ("t", "it3", " out")])
    tree = [("t", "in "), ("e", ("", "b"), [("", "x", "1")], [("t", "bold")]), ("c", "cm"), ("t", " out")]
    idoc, st2 = W.new_document("inner", st)
    made = {}
    st2 = W.plant(st2, idoc, idoc, inner, made)
    hold, outs = W.obj(st2, "Arabica::DOM::Document", "innerdoc", idoc, pick=lambda f: len(f.params) == 1 and "Document_impl<" in f.params[0]["ty"])
    st2 = outs[0].st
    none, outs = W.obj(st2, "Arabica::DOM::Document", "nodoc", pick=lambda f: not f.params)
    st2 = outs[0].st
    MARK = [START, ("startDTD", "r", "", ""), ("internalEntityDecl", "m", "in <b x='1'>bold</b><!--cm--> out"), ("endDTD",), S("r"),
            ("startEntity", "m"), T("in "), S("b"), T("bold"), X("b"), ("comment", "cm"), T(" out"), ("endEntity", "m"), ("startEntity", "m"), T("in "), ("endEntity", "m"), X("r"), END]
    mon.inner = hold
    res = parse(st2, b, MARK, "an entity value with markup", inner=tree); done += 1
    if len(res) == 5:
        dtd(res[0], res[1], res[2], "an entity value with markup")
        log = res[3]
        c.ob("an entity value with markup: it is parsed", any(m[0] == "nested" for m in log))
        put = [m[1] for m in log if m[0] == "written"]
        if put and all(x.k == "s" for x in put):
            t = "".join(x.a[0] for x in put)
            ok = re.match(r"<([A-Za-z]+)>(.*)</\1>$", t) and "in <b x='1'>bold</b><!--cm--> out" in t
            c.ob("an entity value with markup: as the content of one element", bool(ok), "", t)
        got = [B.dump(res[0], k) for k in W.kids(res[0], made["w"])]
        c.ob("an entity value with markup: it is copied", got == tree, "", str(got)[:200])
    mon.inner = none
    MARK2 = MARK[:5] + [("startEntity", "m"), T("in "), ("endEntity", "m"), X("r"), END]
    res = parse(st2, b, MARK2, "an entity value that cannot be parsed", inner=[]); done += 1
    mon.inner = NULL

    # settings
    names = {"http://xml.org/sax/features/namespaces": 1, "http://xml.org/sax/features/namespace-prefixes": 1, "http://xml.org/sax/features/validation": 0}
    for refuse in (False, True):
        mon.refuse = refuse
        s = st
        want = dict(names)
        for n, v in (("http://xml.org/sax/features/validation", 1), ("urn:own", 1), ("urn:own2", 0)):
            s = W.call(s, b, "setFeature", lit(n), C(v))[0].st
            want[n] = v
            g = W.call(s, b, "getFeature", lit(n))
            c.ob("a feature that was set can be asked for", len(g) == 1 and g[0].kind == "ret" and W.loaded(g[0].st, g[0].val) is C(v), W.fn(b, "getFeature", 1).loc, "; ".join("%s %s" % (o.val, o.exc) for o in g))
        g = W.call(s, b, "getFeature", lit("urn:unknown"))
        c.ob("a feature never set is not recognised", g and all(o.kind == "throw" and "NotRecognized" in str(o.exc) for o in g), W.fn(b, "getFeature", 1).loc, "; ".join("%s %s" % (o.val, o.exc) for o in g))
        res = parse(s, b, SCRIPTS["content of every kind"], "features%s" % (" refused" if refuse else "")); done += 1
        got = {m[1].a[0]: m[2].a[0] for m in (res[3] if len(res) == 5 else ()) if m[0] == "feature"}
        miss = {k for k in want if got.get(k) != want[k]} | (set(got) - set(want))
        c.ob("every feature%s reaches the reader" % (", refused or not," if refuse else ""), not miss, W.fn(b, "setFeature", 2).loc, ", ".join(sorted(miss)))
    mon.refuse = False
    s = W.call(st, b, "setEntityResolver", RESOLVER)[0].st
    g = W.get(s, b, "getEntityResolver")
    c.ob("the entity resolver is kept", g is RESOLVER, W.fn(b, "setEntityResolver", 1).loc)
    mon.script = [START, ("resolveEntity", "pub", "sys"), S("r"), X("r"), END]
    f = [P.fns[m["id"]] for m in P.method(B.rec, "parse", 1) if "InputSource" in P.fns[m["id"]].params[0]["ty"]][0]
    A = W.A = W.engine(); s = s.copy(); s.mon = ()
    for o in A.run(f, this=b, args=[mk("N", "source")], st=s):
        asked = [m for m in o.st.mon if m[0] == "resolveEntity"]
        c.ob("entities are resolved by the resolver that was set", len(asked) == 1 and asked[0][1] is RESOLVER, f.loc)
    # reset
    r1 = parse(st, b, SCRIPTS["content of every kind"], "before reset")
    outs = W.call(r1[0], b, "reset")
    c.ob("reset returns", all(o.kind == "ret" for o in outs), W.fn(b, "reset", 0).loc)
    d = W.call(outs[0].st, b, "getDocument"); W.learn()
    h = B.handle(d[0].st, d[0].val)
    c.ob("after reset there is no document", h is NULL or h is C(0), W.fn(b, "reset", 0).loc)
    c.floor("parses analysed", done, 60)
    c.stat("parses", done); c.stat("runs", W.runs); c.stat("paths", W.paths); c.stat("events", sum(len(x) for x in SCRIPTS.values()))
    return c.finish()
