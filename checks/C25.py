"""The libxml2 reader: what a user's handlers hear of a document is the document."""
from arx.prog import Program, Broken
from arx.absint import C, NULL, mk, Exc
from arx.dom import Failed, final
from arx.report import Check
from arx.sax import HANDLERS
from arx.strs import strval
from arx.tree import lit
from checks.C24 import EMon, Ref, Reader, tidy, show, LINE, COLUMN, FEATURES

CTX = mk("N", "the libxml2 context")
LOCATOR = mk("N", "libxml2's locator")
# the members of xmlSAXHandler, in libxml2's order
MEMBERS = ("internalSubset isStandalone hasInternalSubset hasExternalSubset resolveEntity getEntity entityDecl notationDecl attributeDecl elementDecl "
           "unparsedEntityDecl setDocumentLocator startDocument endDocument startElement endElement reference characters ignorableWhitespace "
           "processingInstruction comment warning error fatalError getParameterEntity cdataBlock externalSubset initialized").split()
ATT_TYPES = dict(CDATA=1, ID=2, IDREF=3, IDREFS=4, ENTITY=5, ENTITIES=6, NMTOKEN=7, NMTOKENS=8, ENUMERATION=9, NOTATION=10)
ATT_KINDS = {"": 1, "#REQUIRED": 2, "#IMPLIED": 3, "#FIXED": 4}


class LMon(EMon):
    """libxml2 plays prepared documents"""
    def on_call(self, A, st, ev):
        n = ev.short
        if ev.recv is None:
            if n in ("__builtin_va_start", "__builtin_va_end", "va_start", "va_end"): return [(st, mk("void"))]
            if n in ("vsnprintf", "snprintf", "vsprintf"):
                s = st.copy(); t = ev.args[2] if n != "vsprintf" else ev.args[1]
                v = strval(A.load(s, t)) if t.k != "s" else t
                A.mon.on_store(A, s, ev.args[0], v, ev)
                s.store[mk("I", ev.args[0], C(0))] = s.store[ev.args[0]] = v
                return [(s, C(10))]
            if n.startswith("xml"): return self.libxml2(A, st, ev)
        return super().on_call(A, st, ev)

    def indirect(self, A, st, ev, f):
        if f.k != "N" or not f.a[0].startswith("locator "): return None
        if ev.vals[0] is not CTX: raise Failed("the locator is asked about the parse", ev.where, str(ev.vals))
        what = f.a[0][8:]
        if what == "getLineNumber": return [(st, C(LINE))]
        if what == "getColumnNumber": return [(st, C(COLUMN))]
        return [(st, st.store.get(mk("F", CTX, "filename"), NULL) if what == "getSystemId" else NULL)]

    def handler(self, A, st, member):
        h = st.store.get(mk("F", CTX, "handler"))
        if h is None: raise Failed("libxml2 is given the functions to call", "")
        f = st.store.get(mk("F", h, member))
        if f is None and h.k == "G":
            v = A.P.vars.get(h.a[0]); n = v["nodes"][v["init"]] if v and v.get("init", -1) >= 0 else {}
            while n.get("k") in ("cast", "paren"): n = v["nodes"][n["sub"]]
            if n.get("k") != "init": raise Broken("functions given to libxml2")
            i = MEMBERS.index(member)
            if i >= len(n["args"]): return NULL
            m = v["nodes"][n["args"][i]]
            while m.get("k") in ("cast", "paren") or m.get("k") == "un" and m["op"] == "&": m = v["nodes"][m["sub"]]
            f = mk("fn", m["fn"]) if m.get("k") == "fref" else NULL
        if f is None: raise Broken("functions given to libxml2: %s" % h)
        if f.k == "ld" and f.a[0].k == "fn": f = f.a[0]
        return f

    def libxml2(self, A, st, ev):
        n = ev.short; a = list(ev.vals); void = mk("void")
        p = a[0] if a else None
        F = lambda x: mk("F", CTX, x)
        if n == "xmlInitParser": return [(st, void)]
        if n == "xmlCreatePushParserCtxt":
            s = st.copy()
            h = ev.args[0]
            s.store[F("handler")] = h if h.k == "G" else a[0]; s.store[F("user data")] = a[1]
            s.store[F("myDoc")] = NULL; s.store[F("version")] = mk("N", "version")
            for m in ("getPublicId", "getSystemId", "getLineNumber", "getColumnNumber"): s.store[mk("F", LOCATOR, m)] = mk("N", "locator " + m)
            return [(s, CTX)]
        if n in ("xmlCtxtUseOptions", "xmlFreeParserCtxt", "xmlFreeEnumeration", "xmlFreeDoc"): return [(st, C(0) if n == "xmlCtxtUseOptions" else void)]
        if n in ("xmlNewDoc", "xmlNewDtd"):
            EMon.count += 1
            return [(st, mk("N", "document %d" % EMon.count))]
        if n == "xmlLoadExternalEntity": return [(st, NULL)]
        if p is not CTX: raise Broken("%s of %s" % (n, p))
        if n in ("xmlCtxtResetPush", "xmlCtxtReset"):
            s = st.copy()
            for k in [k for k in s.store if k.k == "F" and k.a[0] is CTX and k.a[1] not in ("handler", "user data", "version") and not k.a[1].startswith("feature ")]: del s.store[k]
            s.store[F("myDoc")] = NULL
            if n == "xmlCtxtResetPush":
                if a[2].k != "c" or a[2].a[0]: raise Broken("xmlCtxtResetPush with text")
                if ev.args[3] is not NULL and a[3] is not NULL: s.store[F("filename")] = lit(self.plain(A, s, ev.args[3], a[3]))
            return [(s, C(0))]
        if n in ("xmlSetFeature", "xmlGetFeature"):
            w = self.plain(A, st, ev.args[1], a[1])
            if w not in ("validate", "fetch external entities", "load dtd", "substitute entities"): return [(st, C(-1))]
            s = st.copy()
            at = ev.args[2]
            if n == "xmlSetFeature": s.store[F("feature " + w)] = A.load(s, at)
            else: s.store[at] = s.store.get(F("feature " + w), C(0))
            return [(s, C(0))]
        if n == "xmlSAX2EntityDecl":
            s = st.copy(); s.store[F("entity " + self.plain(A, s, ev.args[1], a[1]))] = C(1)
            return [(s, void)]
        if n == "xmlSAX2GetEntity":
            k = F("entity " + self.plain(A, st, ev.args[1], a[1]))
            return [(st, mk("N", k.a[1]) if k in st.store else NULL)]
        if n == "xmlParseChunk": return self.chunk(A, st, ev, a)
        raise Broken("libxml2 is asked for " + n)

    def chunk(self, A, st, ev, a):
        F = lambda x: mk("F", CTX, x)
        x = st.store.get(mk("F", a[1], "holds")) or st.store.get(mk("F", ev.args[1], "holds"))
        if x is None: raise Failed("what is parsed was read", ev.where)
        name, i = x.a
        d = self.documents[name]; ln, fin = a[2], a[3]
        if ln.k != "c" or fin.k != "c": raise Broken("length %s, end %s of a piece" % (ln, fin))
        if ln.a[0] != 101 + i: raise Failed("all that was read is parsed, and no more", ev.where, "piece %d: %s" % (i, ln))
        if bool(fin.a[0]) != (i == len(d) - 1): raise Failed("the last piece, and no other, is marked as the last", ev.where, "piece %d of %d" % (i + 1, len(d)))
        if F("stopped") in st.store: return [(st, C(1))]
        if st.store.get(F("pieces"), C(0)).a[0] != i: raise Failed("each piece of one document is parsed once, in order", ev.where, "piece %d" % i)
        s = st.copy(); s.store[F("pieces")] = C(i + 1)
        evs = ([("setDocumentLocator",), ("startDocument",)] if i == 0 else []) + list(d[i]) + ([("endDocument",)] if i == len(d) - 1 else [])
        live = [s]; out = []
        for e in evs:
            nxt = []
            for s in live:
                if F("stopped") in s.store:
                    out.append((s, C(1))); continue
                for s2, v in self.say(A, s, ev, e):
                    (out if isinstance(v, Exc) else nxt).append((s2, v) if isinstance(v, Exc) else s2)
            live = nxt
        return out + [(s, C(0)) for s in live]

    def say(self, A, st, ev, e):
        """one thing libxml2 tells the reader"""
        k = e[0]
        ptr = lambda x: NULL if x is None else lit(x)
        s = st.copy()
        if k == "reference":
            out = []
            for s2, v in self.callback(A, s, ev, "getEntity", [lit(e[1])]):
                if isinstance(v, Exc): out.append((s2, v)); continue
                t = A.truth(s2, v)
                if t is None: raise Broken("answer of getEntity: %s" % v)
                out += self.say(A, s2, ev, ("characters", e[2]) if t else ("malformed", "Entity not defined"))
            return out
        if k == "malformed":
            s.store[mk("F", CTX, "stopped")] = C(1)
            return self.callback(A, s, ev, "error", [lit(e[1] if len(e) > 1 else "not well-formed")])
        if k == "startElement":
            EMon.count += 1
            n = mk("N", "attribute array %d" % EMon.count)
            flat = [lit(x) for q, v in e[2] for x in (q, v)] + [NULL]
            if not e[2]: return self.callback(A, s, ev, k, [lit(e[1]), NULL])
            for i, x in enumerate(flat): s.store[mk("I", n, C(i))] = x
            s.store[n] = flat[0]
            return self.callback(A, s, ev, k, [lit(e[1]), n])
        if k in ("characters", "cdataBlock", "ignorableWhitespace"): return self.callback(A, s, ev, k, [lit(e[1] + "#more text of the buffer"), C(len(e[1]))])
        if k == "setDocumentLocator": return self.callback(A, s, ev, k, [LOCATOR])
        if k in ("warning", "error", "fatalError"): return self.callback(A, s, ev, k, [lit(e[1])])
        if k == "notationDecl": return self.callback(A, s, ev, k, [lit(e[1]), ptr(e[3]), ptr(e[2])])
        if k == "unparsedEntityDecl": return self.callback(A, s, ev, k, [lit(e[1]), ptr(e[3]), ptr(e[2]), lit(e[4])])
        if k == "entityDecl":
            _, name, par, value, sysid, pubid = e
            return self.callback(A, s, ev, k, [lit(name), C((4 if par else 1) if value is not None else (5 if par else 2)), ptr(pubid), ptr(sysid), ptr(value)])
        if k == "attributeDecl":
            _, el, at, ty, names, kind, dflt = e
            return self.callback(A, s, ev, k, [lit(el), lit(at), C(ATT_TYPES[ty]), C(ATT_KINDS[kind]), ptr(dflt), self.chain(s, names)])
        if k == "elementDecl":
            return self.callback(A, s, ev, k, [lit(e[1]), C({"EMPTY": 1, "ANY": 2, "MIXED": 3}.get(e[2][0], 4)), self.content(s, e[2])])
        return self.callback(A, s, ev, k, [ptr(x) for x in e[1:]])

    def callback(self, A, st, ev, member, args):
        f = self.handler(A, st, member)
        if f is NULL: return [(st, NULL)]
        if f.k != "fn" or f.a[0] not in A.P.fns: raise Broken("function for %s: %s" % (member, f))
        fn = A.P.fns[f.a[0]]
        if len(fn.params) != 1 + len(args): raise Broken("parameters of the function for " + member)
        return [(o.st, o.exc if o.kind == "throw" else o.val) for o in
                A.run_fn(fn, st, None, [st.store[mk("F", CTX, "user data")]] + args, ev.frame, ev.node, (ev.depth or 0) + 1)]

    def node(self, what):
        EMon.count += 1
        return mk("N", "%s %d" % (what, EMon.count))

    def chain(self, st, names):
        nxt = NULL
        for x in reversed(names):
            n = self.node("enumeration"); st.store[mk("F", n, "name")] = lit(x); st.store[mk("F", n, "next")] = nxt; nxt = n
        return nxt

    def content(self, st, m):
        """the content model as libxml2 keeps it: lists hang on one another to the right"""
        t, q, name, kids = m
        if t in ("EMPTY", "ANY"): return NULL
        def cell(ty, ocur, name=None, c1=NULL, c2=NULL):
            n = self.node("content"); F = lambda x: mk("F", n, x)
            st.store[F("type")] = C(ty); st.store[F("ocur")] = C({"": 1, "?": 2, "*": 3, "+": 4}[ocur])
            pre, local = name.split(":") if name and ":" in name else (None, name)
            st.store[F("name")] = lit(local) if name else NULL; st.store[F("prefix")] = lit(pre) if pre else NULL
            st.store[F("c1")] = c1; st.store[F("c2")] = c2; st.store[F("parent")] = NULL
            return n
        if t == "NAME": return cell(2, q, name)
        parts = [self.content(st, k) for k in kids]
        if t == "MIXED": parts = [cell(1, q if not kids else "")] + parts
        if len(parts) == 1: return parts[0]
        ty = 3 if t == "SEQ" else 4
        rest = parts[-1]
        for x in reversed(parts[1:-1]): rest = cell(ty, "", None, x, rest)
        return cell(ty, q, None, parts[0], rest)


def model(m, top=True):
    t, q, name, kids = m
    if t in ("EMPTY", "ANY"): return t
    if t == "NAME": return ("(%s)" % name if top else name) + q
    if t == "MIXED": return "(" + "|".join(["#PCDATA"] + [k[2] for k in kids]) + ")" + q
    return "(" + ("," if t == "SEQ" else "|").join(model(k, False) for k in kids) + ")" + q


class LRef(Ref):
    def document(self, sysid, pubid=""):
        self.say("ContentHandler", "setDocumentLocator", "?")
        self.out.append(("input", "open", sysid, pubid))
        d = self.docs.get(sysid or pubid)
        self.cdata = False; self.known = set()
        if d is None:
            self.say("ErrorHandler", "fatalError", "?"); return self.out
        self.say("ContentHandler", "startDocument")
        for piece in d:
            for e in piece:
                if e[0] == "malformed":
                    self.say("ErrorHandler", "error", "?"); return self.out
                if e[0] not in ("cdataBlock", "warning", "error", "fatalError", "reference"): self.close()
                if getattr(self, e[0])(*e[1:]) is False: return self.out
        self.close()
        self.say("ContentHandler", "endDocument")
        return self.out

    def close(self):
        if self.cdata: self.say("LexicalHandler", "endCDATA")
        self.cdata = False

    def cdataBlock(self, t):
        if not self.cdata: self.say("LexicalHandler", "startCDATA")
        self.cdata = True
        self.characters(t)

    def ignorableWhitespace(self, t): self.say("ContentHandler", "ignorableWhitespace", t)
    def processingInstruction(self, t, d): self.say("ContentHandler", "processingInstruction", t, d or "")
    def warning(self, t): self.say("ErrorHandler", "warning", "?")
    def error(self, t): self.say("ErrorHandler", "error", "?")
    def fatalError(self, t): self.say("ErrorHandler", "fatalError", "?")
    def unparsedEntityDecl(self, n, s, p, nt): self.say("DTDHandler", "unparsedEntityDecl", n, p or "", s or "", nt)

    def entityDecl(self, n, par, value, s, p):
        if not par: self.known.add(n)
        n = "%" + n if par else n
        if value is not None: self.say("DeclHandler", "internalEntityDecl", n, value)
        else: self.say("DeclHandler", "externalEntityDecl", n, p or "", s or "")

    def reference(self, n, t):
        if n not in self.known:
            self.say("ErrorHandler", "error", "?"); return False
        self.close()
        self.characters(t)

    def attributeDecl(self, el, at, ty, names, kind, dflt):
        group = "(" + "|".join(names) + ")"
        self.say("DeclHandler", "attributeDecl", el, at, group if ty == "ENUMERATION" else "NOTATION " + group if ty == "NOTATION" else ty, kind, dflt or "")

    def elementDecl(self, n, m): self.say("DeclHandler", "elementDecl", n, model(m))


class LReader(Reader):
    reader = "Arabica::SAX::libxml2_wrapper"

    def __init__(self, P):
        super().__init__(P)
        self.mon = LMon(); self.mon.W = self; self.mon.documents = {}


def documents():
    e = lambda n, *atts: ("startElement", n, list(atts))
    x = lambda n: ("endElement", n)
    t = lambda s: ("characters", s)
    cd = lambda s: ("cdataBlock", s)
    D = {}
    D["empty"] = [[e("a"), x("a")]]
    D["texts"] = [[e("a"), t("one"), t("two"), e("b"), t("x"), x("b"), t("\n <&>"), ("ignorableWhitespace", " \n"), x("a")]]
    D["attributes"] = [[e("a", ("x", "1"), ("y", ""), ("z", "two words")), e("b", ("x", "2")), x("b"), x("a")]]
    D["default namespace"] = [[e("a", ("xmlns", "urn:1"), ("x", "v")), e("b"), x("b"), e("c", ("xmlns", "")), e("d"), x("d"), x("c"), e("f", ("xmlns", "urn:2")), x("f"), e("g"), x("g"), x("a")]]
    D["prefixes"] = [[e("p:a", ("k", "v"), ("p:k", "w"), ("xmlns:p", "urn:p"), ("xmlns:q", "urn:q")), e("q:b", ("q:k", "1"), ("xml:lang", "en")), x("q:b"),
                      e("p:c", ("xmlns:p", "urn:p2"), ("p:k", "2")), e("p:d"), x("p:d"), x("p:c"), e("p:e"), x("p:e"), x("p:a")]]
    D["nested without declarations"] = [[e("a", ("xmlns:p", "urn:p"), ("xmlns", "urn:d")), e("b"), e("c"), x("c"), x("b"), e("p:b"), x("p:b"), x("a")]]
    D["same prefix thrice"] = [[e("p:a", ("xmlns:p", "urn:1")), e("p:b", ("xmlns:p", "urn:2")), e("p:c", ("xmlns:p", "urn:3")), x("p:c"), x("p:b"), e("p:d"), x("p:d"), x("p:a")]]
    D["name like a declaration"] = [[e("xmlnsa", ("xmlnsb", "v"), ("x", "w")), x("xmlnsa")]]
    D["declared on siblings"] = [[e("r"), e("p:a", ("xmlns:p", "urn:1")), x("p:a"), e("q:a", ("xmlns:q", "urn:2")), x("q:a"), e("p:b", ("xmlns:p", "urn:3")), x("p:b"), x("r")]]
    D["undeclared prefix"] = [[e("a"), e("p:b", ("xmlns:p", "urn:p")), x("p:b"), e("p:c", ("q:x", "1")), x("p:c"), x("a")]]
    D["lexical"] = [[("comment", "before"), ("processingInstruction", "t", "some data"), e("a"), cd("cdata"), ("comment", ""), t("b"),
                     ("processingInstruction", "u", None), x("a"), ("comment", "after")]]
    for n, f in (("text", [t("u")]), ("element", [e("c"), x("c")]), ("comment", [("comment", "c")]), ("instruction", [("processingInstruction", "p", "d")]), ("end of element", []),
                 ("section", [cd("more"), t("u")]), ("reference", [("reference", "i", "value")]), ("error", [("error", "oh"), t("u")])):
        D["section before " + n] = [[("entityDecl", "i", 0, "value", None, None), e("a"), t("t"), cd("in a section")] + f + [x("a"), ("comment", "after")]]
    D["section in pieces"] = [[e("a"), cd("one ")], [cd("two")], [], [cd("three"), t("four")], [x("a")]]
    D["section in an element with attributes"] = [[e("a", ("xmlns:p", "urn:p")), cd("x"), e("p:b", ("k", "v")), cd("y"), x("p:b"), cd("z"), x("a")]]
    D["notations"] = [[("notationDecl", "n1", "sys", None), ("notationDecl", "n2", None, "pub"), ("notationDecl", "n3", "sys", "pub"),
                       ("unparsedEntityDecl", "u1", "u.gif", None, "n1"), ("unparsedEntityDecl", "u2", "v.gif", "pub v", "n2"), e("a"), x("a")]]
    D["entities"] = [[("entityDecl", "i1", 0, "value", None, None), ("entityDecl", "i2", 0, "", None, None),
                      ("entityDecl", "p1", 1, "in a DTD", None, None), ("entityDecl", "e1", 0, None, "e1.xml", None), ("entityDecl", "e2", 0, None, "e2.xml", "pub e2"),
                      ("entityDecl", "p2", 1, None, "p2.dtd", "pub p2"), e("a"), t("before"), ("reference", "i1", "value"), t("after"), x("a")]]
    D["undeclared entity"] = [[("entityDecl", "other", 0, "value", None, None), e("a"), ("reference", "i1", "value"), x("a")]]
    atts = []
    for ty in ATT_TYPES:
        names = ["x", "y", "z"] if ty in ("ENUMERATION", "NOTATION") else []
        for kind, d in (("", "x"), ("", ""), ("#REQUIRED", None), ("#IMPLIED", None), ("#FIXED", "x"), ("#FIXED", "")):
            atts.append(("attributeDecl", "a", "p:" + ty, ty, names, kind, d))
    atts.append(("attributeDecl", "a", "one", "ENUMERATION", ["x"], "#REQUIRED", None))
    D["attribute declarations"] = [atts + [e("a"), x("a")]]
    nm = lambda n, q="": ("NAME", q, n, [])
    models = [("EMPTY", "", None, []), ("ANY", "", None, []), ("MIXED", "", None, []), ("MIXED", "*", None, []), ("MIXED", "*", None, [nm("x")]), ("MIXED", "*", None, [nm("x"), nm("y"), nm("p:z")]),
              nm("x"), nm("p:x", "?"), ("SEQ", "+", None, [nm("x", "?"), nm("y", "*")]), ("CHOICE", "?", None, [nm("x"), nm("y", "+"), nm("z")]),
              ("SEQ", "*", None, [nm("x"), ("CHOICE", "+", None, [nm("y", "?"), ("SEQ", "", None, [nm("z"), nm("w", "*")])]), nm("v")]),
              ("CHOICE", "", None, [("SEQ", "?", None, [nm("x"), nm("y")]), nm("z")]),
              ("SEQ", "", None, [nm("x"), ("SEQ", "?", None, [nm("y"), nm("z")])]), ("SEQ", "", None, [("SEQ", "", None, [nm("x"), nm("y")]), nm("z")]),
              ("CHOICE", "", None, [nm("x"), nm("y"), ("SEQ", "", None, [nm("z"), nm("w")])]), ("CHOICE", "+", None, [("CHOICE", "*", None, [nm("x"), nm("y")]), ("CHOICE", "+", None, [nm("z"), nm("w")])]),
              ("SEQ", "", None, [nm(c) for c in "abcdef"])]
    D["element declarations"] = [[("elementDecl", "e%d" % i, m) for i, m in enumerate(models)] + [e("a"), x("a")]]
    D["in pieces"] = [[e("a", ("xmlns", "urn:a"))], [t("one")], [e("b"), t("two")], [x("b")], [x("a")]]
    D["no events in a piece"] = [[], [e("a")], [], [x("a")]]
    D["malformed"] = [[e("a", ("xmlns:p", "urn:p")), e("b")], [t("x"), ("malformed",), t("never")], [x("b"), x("a")]]
    D["malformed in a section"] = [[e("a"), cd("x"), ("malformed",)]]
    D["errors"] = [[e("a"), ("warning", "w"), t("x"), ("error", "e"), t("y"), ("fatalError", "f"), x("a")]]
    return D


CONFIGS = [("as it comes", (), True, True), ("without namespace-prefixes", (("namespace-prefixes", 0),), True, False),
           ("without namespaces", (("namespaces", 0),), False, True), ("validating", (("validation", 1), ("external-general-entities", 1)), True, True)]


def check():
    c = Check("C25", "proof", "the libxml2 reader run in the abstract interpreter over a libxml2 that plays documents of every kind of content through the functions the reader "
              "gave it: what each of the user's handlers hears, in what order, with what arguments, for every subset of handlers and features tried, split into pieces, "
              "after failures and in a second parse")
    P = Program(["libxml2"])
    docs = documents()
    R = LReader(P)
    R.mon.documents = docs
    every = tuple(h for h in HANDLERS)

    def guarded(f):
        def g(*a):
            try:
                return f(*a)
            except Failed as x:
                c.ob(x.what, False, x.where, x.detail)
        return g

    def compare(key, outs, want, throws=False, sysid=None):
        got = []
        for o in outs:
            if o.kind != ("throw" if throws else "ret"):
                c.ob(key + ": ends", False, R.at, "%s %s" % (o.kind, o.exc)); continue
            got.append(o)
            g = tidy(o.st.mon); w = tidy(want[:len(o.st.mon)] if throws else want)
            d = next((i for i in range(max(len(g), len(w))) if i >= len(g) or i >= len(w) or g[i] != w[i]), None)
            c.ob(key, d is None, R.at, "" if d is None else "heard %s, expected %s (after %s)" % (show(g[d:d + 1]) or "nothing more", show(w[d:d + 1]) or "nothing more", show(g[max(0, d - 2):d])))
            started = False
            for x in o.st.mon:
                if x[1] == "startDocument": started = True
                if x[0] == "ErrorHandler" and started:
                    c.ob(key + ": errors tell where they were found", x[2][:2] == (LINE, COLUMN), R.at, str(x))
                    if sysid: c.ob(key + ": errors tell in which document they were found", x[2][2] == sysid, R.at, str(x))
                if x[1] == "setDocumentLocator":
                    c.ob(key + ": the locator is the reader", x[2] is mk("N", "reader"), R.at, str(x))
        c.ob(key + ": ends in one way", len(outs) == 1, R.at, "%d" % len(outs))
        return got

    def features(fs): return [(FEATURES + n, v) for n, v in fs]

    @guarded
    def whole(name, cfg):
        cn, fs, ns, pre = cfg
        r, st = R.new(every, features(fs))
        compare("%s, %s" % (name, cn), R.parse(st, r, name, "public " + name), LRef(docs, every, ns, pre).document(name, "public " + name), sysid=name)

    @guarded
    def subset(hs):
        for name in ("prefixes", "lexical", "notations", "entities", "undeclared prefix", "attribute declarations", "element declarations", "malformed", "errors", "texts",
                     "section in pieces", "section in an element with attributes", "section before instruction", "section before element"):
            r, st = R.new(hs)
            compare("%s heard by %s" % (name, ", ".join(hs) or "nobody"), R.parse(st, r, name), LRef(docs, hs).document(name))

    DECL = ((), (("xmlns:p", "urn:1"),), (("xmlns:p", "urn:2"), ("k", "v")), (("xmlns", "urn:1"),), (("xmlns", ""), ("p:k", "v")))
    kinds = [(d, n) for d in DECL for n in ("a", "p:a")]

    @guarded
    def nest(k1):
        for k2 in kinds:
            for k3 in kinds:
                for inside in (True, False):
                    (d1, n1), (d2, n2), (d3, n3) = k1, k2, k3
                    s1, s2, s3 = [("startElement", n, list(d)) for n, d in ((n1, d1), (n2, d2), (n3, d3))]
                    e1, e2, e3 = [("endElement", n) for n in (n1, n2, n3)]
                    doc = [[s1, s2] + ([s3, e3, e2] if inside else [e2, s3, e3]) + [e1]]
                    R.mon.documents = {"d": doc}
                    r, st = readers["every"]
                    compare("elements declaring and using prefixes, %s" % ("nested" if inside else "in a row"), R.parse(st, r, "d"), LRef({"d": doc}, every).document("d"))
        R.mon.documents = docs

    @guarded
    def again(first, second, stop=None):
        r, st = R.new(every)
        R.mon.stop_at = stop
        try:
            o1 = compare("first of two: %s%s" % (first, " stopped at %s %d" % stop if stop else ""), R.parse(st, r, first), LRef(docs, every).document(first), bool(stop))
        finally:
            R.mon.stop_at = None
        for o in o1:
            f = final(P, R.exact[r], "setFeature", 2)
            for y in R.run(f, r, [lit(FEATURES + "namespaces"), C(1)], o.st):
                c.ob("features can be set again once a document is finished", y.kind == "ret", f.loc, "after %s: %s" % (first, y.exc))
            s = o.st.copy()
            for k in [k for k in s.store if k.k == "F" and k.a[0].k == "N" and k.a[0].a[0].startswith("stream ")]: del s.store[k]
            compare("%s parsed after %s%s" % (second, first, " stopped at %s %d" % stop if stop else ""), R.parse(s, r, second), LRef(docs, every).document(second), sysid=second)

    @guarded
    def busy(_):
        r, st = R.new(every)
        f = final(P, R.exact[r], "setFeature", 2)
        class Asks(LMon):
            def heard(self, A, st, ev, iface, op):
                for s, v in super().heard(A, st, ev, iface, op):
                    if op == "characters":
                        for n in ("namespaces", "namespace-prefixes"):
                            for o in A.run_fn(f, s, r, [lit(FEATURES + n), C(1)], ev.frame, ev.node, (ev.depth or 0) + 1):
                                c.ob("a feature cannot be changed during a parse", o.kind == "throw" and o.exc.name.endswith("SAXNotSupportedException"), f.loc, n)
                return [(s, v)]
        keep, R.mon = R.mon, Asks()
        R.mon.W = R; R.mon.documents = docs
        R.parse(st, r, "texts")
        R.mon = keep

    @guarded
    def feats(_):
        r, st = R.new(())
        g = final(P, R.exact[r], "getFeature", 1); f = final(P, R.exact[r], "setFeature", 2)
        def get(st, n):
            outs = R.run(g, r, [lit(n if n.startswith("no ") else FEATURES + n)], st)
            return {(o.kind, (R.engine().truth(o.st, o.val) if o.kind == "ret" else o.exc.name.rsplit("::")[-1].split("<")[0])) for o in outs}
        for n in ("namespaces", "namespace-prefixes"):
            c.ob("%s is on at first" % n, get(st, n) == {("ret", True)}, g.loc, str(get(st, n)))
        for n, v in (("namespaces", 0), ("namespace-prefixes", 0), ("external-general-entities", 1), ("external-general-entities", 0), ("validation", 1), ("validation", 0), ("namespaces", 1), ("namespace-prefixes", 1)):
            s = R.one(R.run(f, r, [lit(FEATURES + n), C(v)], st), "%s can be set" % n, f.loc).st
            c.ob("%s set to %d is so" % (n, v), get(s, n) == {("ret", bool(v))}, f.loc, str(get(s, n)))
            for m in ("external-general-entities", "validation"):
                if m != n: c.ob("%s is left as it was by setting another" % m, get(s, m) == get(st, m), f.loc, n)
        c.ob("an unknown feature is not recognised", {x[1] for x in get(st, "no such thing")} == {"SAXNotRecognizedException"}, g.loc, str(get(st, "no such thing")))
        outs = R.run(f, r, [lit("no such thing"), C(1)], st)
        c.ob("an unknown feature cannot be set", outs and all(o.kind == "throw" and "SAXNotRecognizedException" in o.exc.name for o in outs), f.loc, str(outs))

    @guarded
    def trouble(_):
        r, st = R.new(every)
        compare("a document that cannot be opened", R.parse(st, r, "no such document"), LRef(docs, every).document("no such document"))

    readers = {"every": R.new(every)}
    work = [(nest, (k,)) for k in kinds]
    work += [(whole, (n, k)) for n in docs for k in CONFIGS]
    subsets = [()] + [(h,) for h in every] + [tuple(h for h in every if h != g) for g in every]
    work += [(subset, (hs,)) for hs in subsets]
    work += [(again, (a, b)) for a in ("texts", "malformed", "prefixes", "no such document", "entities", "malformed in a section", "undeclared entity")
             for b in ("declared on siblings", "undeclared prefix", "nested without declarations", "section before text", "undeclared entity")]
    work += [(again, ("prefixes", b, s)) for b in ("undeclared prefix", "in pieces") for s in (("startElement", 1), ("startElement", 3), ("endElement", 1), ("startPrefixMapping", 1), ("startDocument", 1), ("endDocument", 1), ("setDocumentLocator", 1))]
    work += [(again, ("section in pieces", b, s)) for b in ("section before text", "texts") for s in (("startCDATA", 1), ("characters", 1), ("characters", 2), ("endCDATA", 1))]
    work += [(busy, (0,)), (feats, (0,)), (trouble, (0,))]
    c.spread(work, lambda w: w[0](*w[1]), R)
    c.stat("documents", len(docs)); c.stat("runs", R.runs); c.stat("paths", R.paths)
    c.floor("cases", len(work), 150)
    return c.finish()
