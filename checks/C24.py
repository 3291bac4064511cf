"""The Expat reader: what a user's handlers hear of a document is the document."""
import re
from arx.prog import Program, Broken
from arx.absint import C, NULL, mk, Exc
from arx.dom import Failed, merge, final
from arx.report import Check
from arx.sax import HANDLERS, handler_event
from arx.strs import strval
from arx.tree import Trees, lit
from arx.xp import XPMon

XMLURI = "http://www.w3.org/XML/1998/namespace"
PARSER = mk("N", "the Expat parser")
LINE, COLUMN = 7, 11


class EMon(XPMon):
    """Expat plays prepared documents; the user's handlers write down what they hear"""
    roots = ("Arabica::",)
    maxlen = 400
    stop_at = None          # (event, how many): a handler raises an exception there
    resolver = None         # what the user's entity resolver answers
    W = None

    def inline(self, A, fn, ev):
        return not (fn.clsn or "").endswith("SAX::InputSourceResolver") and super().inline(A, fn, ev)

    def on_call(self, A, st, ev):
        h = handler_event(ev)
        if h and ev.recv is not None and ev.recv.k == "N" and ev.recv.a[0].startswith("user "):
            return self.heard(A, st, ev, *h)
        if ev.name.startswith("XML_") and ev.recv is None:
            return self.expat(A, st, ev)
        if (ev.cls or "").endswith("SAX::InputSourceResolver"):
            return self.source(A, st, ev)
        if ev.recv is not None and ev.recv.k == "N" and ev.recv.a[0].startswith("stream "):
            return self.stream_call(A, st, ev)
        if (ev.cls or "") == "std::_Bit_reference":
            if ev.short == "operator bool": return [(st, A.load(st, ev.recv) if ev.recv.k in ("el", "T", "L", "F") else ev.recv)]
            if ev.kind == "dtor": return [(st, mk("void"))]
        return super().on_call(A, st, ev)

    # ---- the user's handlers
    def heard(self, A, st, ev, iface, op):
        args = []
        for i, (a, v) in enumerate(zip(ev.args, ev.vals)):
            if op == "startElement" and i == 3:
                args.append(self.attributes(A, st, ev, a))
            elif iface == "ErrorHandler":
                args.append(tuple(self.ask(A, st, ev, a, o) for o in ("getLineNumber", "getColumnNumber", "getSystemId", "getPublicId")))
            elif op == "setDocumentLocator":
                args.append(a)
            else:
                args.append(self.plain(A, st, a, v))
        st = st.copy()
        st.mon = st.mon + ((ev.recv.a[0][5:], op) + tuple(args),)
        if iface != ev.recv.a[0][5:]:
            raise Failed("a %s is called as such" % ev.recv.a[0][5:], ev.where, op)
        if self.stop_at and self.stop_at[0] == op and sum(1 for x in st.mon if x[1] == op) == self.stop_at[1]:
            return [(st, Exc(None, "arx::UserException", None, ev.where))]
        if op == "resolveEntity":
            T = mk("T", ev.frame.fid, ev.node)
            return self.make_source(A, st, ev, T, *(self.resolver or (None, None)))
        return [(st, mk("void"))]

    def plain(self, A, st, a, v):
        x = strval(v)
        if x.k not in ("s", "str", "cat", "seq", "sub", "c"): x = strval(A.load(st, a))
        if x.k == "s": return x.a[0]
        if x.k == "seq" and all(y.k == "c" for y in x.a): return "".join(chr(y.a[0]) for y in x.a)
        return x

    def ask(self, A, st, ev, o, op, *args):
        rec = A.exact.get(o)
        fs = []
        if rec is not None:
            f = final(A.P, rec, op, len(args)); fs = [f] if f else []
        if not fs: raise Broken("%s of %s" % (op, o))
        outs = A.invoke(st, ev, fs[0], o, list(args))
        if len(outs) != 1 or outs[0].kind != "ret": raise Broken("%s ends in %d ways" % (op, len(outs)))
        v = outs[0].val
        if v.k in ("F", "L", "T", "I", "el", "G"): v = A.load(outs[0].st, v)
        v = strval(v)
        return v.a[0] if v.k in ("s", "c") else v

    def attributes(self, A, st, ev, o):
        if A.exact.get(o) is None:
            raise Broken("class of the attributes handed on")
        rec = A.exact[o]
        n = self.ask(A, st, ev, o, "getLength")
        if not isinstance(n, int): raise Broken("number of attributes: %s" % n)
        out = []
        for i in range(n):
            row = []
            for op in ("getURI", "getLocalName", "getQName", "getValue"):
                fs = [A.P.fns[A.P.final_overrider(rec, m["id"]) or m["id"]] for m in A.P.method(rec, op, 1)]
                fs = [f for f in fs if "string" not in f.params[0]["ty"]]
                outs = A.invoke(st, ev, fs[0], o, [C(i)])
                if len(outs) != 1 or outs[0].kind != "ret": raise Broken("%s of an attribute" % op)
                v = outs[0].val
                if v.k in ("F", "L", "T", "I", "el", "G"): v = A.load(outs[0].st, v)
                v = strval(v)
                row.append(v.a[0] if v.k == "s" else v)
            out.append(tuple(row))
        return tuple(out)

    # ---- input
    def make_source(self, A, st, ev, T, public, system):
        rec = A.P.one_rec("Arabica::SAX::InputSource")["id"]
        ks = [A.P.fns[m["id"]] for m in A.P.methods(rec) if m.get("kind") == "ctor" and m["id"] in A.P.fns]
        k0 = [f for f in ks if not f.params]
        if not k0: raise Broken("constructor of InputSource")
        for k in [k for k in st.store if k is T or k.k == "F" and k.a[0] is T]: del st.store[k]
        A.exact[T] = rec
        outs = A.invoke(st, ev, k0[0], T, [])
        for op, v in (("setPublicId", public), ("setSystemId", system)):
            if v is None: continue
            f = [A.P.fns[m["id"]] for m in A.P.method(rec, op, 1) if m["id"] in A.P.fns][0]
            outs = [o2 for o in outs for o2 in A.invoke(o.st, ev, f, T, [lit(v)])]
        return [(o.st, T) for o in outs]

    def source(self, A, st, ev):
        if ev.kind == "dtor" or ev.short.startswith("~"): return [(st, mk("void"))]
        if ev.kind == "ctor":
            sysid = self.ask(A, st, ev, ev.args[0], "getSystemId"); pubid = self.ask(A, st, ev, ev.args[0], "getPublicId")
            st = st.copy()
            key = sysid or pubid
            st.store[mk("F", ev.recv, "arx stream")] = mk("N", "stream " + key) if key in self.documents else NULL
            st.mon = st.mon + (("input", "open", sysid, pubid),)
            return [(st, ev.recv)]
        if ev.short == "resolve":
            return [(st, st.store[mk("F", ev.recv, "arx stream")])]
        raise Broken("InputSourceResolver is asked for " + ev.short)

    def stream_call(self, A, st, ev):
        """the text of a document arrives in as many pieces as were prepared; the end of the stream is seen with the last piece"""
        name = ev.recv.a[0][7:]; n = len(self.documents[name])
        k = mk("F", ev.recv, "read")
        got = st.store.get(k, C(0)).a[0]
        if ev.short == "eof": return [(st, C(got >= n))]
        if ev.short in ("operator!", "fail", "bad"): return [(st, C(got >= n and ev.short != "bad"))]
        if ev.short in ("good", "operator bool"): return [(st, C(got < n))]
        if ev.short == "gcount": return [(st, C(100 + got))]
        if ev.short == "read":
            st = st.copy(); st.store[k] = C(got + 1)
            st.store[mk("F", ev.args[0], "holds")] = mk("piece", name, got)
            return [(st, ev.recv)]
        raise Broken("the input stream is asked for " + ev.short)

    # ---- Expat
    def cb(self, p, what):
        return mk("F", p, "cb " + what)

    def fails(self, st, what):
        return False

    def expat(self, A, st, ev):
        n = ev.short; a = list(ev.vals); void = mk("void")
        p = a[0] if a else None
        if p is not None and p.k == "ld": p = A.load(st, ev.args[0])
        if n == "XML_ErrorString": return [(st, lit("Expat's message"))]
        if n == "XML_ParserCreate": return [(st, PARSER)]
        if n == "XML_ParserFree":
            return [(st, void)]
        if n == "XML_ExternalEntityParserCreate":
            q = mk("N", "external parser %d" % sum(1 for x in st.store if x.k == "F" and x.a[1] == "parent"))
            s = st.copy()
            for k in [k for k in s.store if k.k == "F" and k.a[0] is p and (k.a[1].startswith("cb ") or k.a[1] == "user data")]:
                s.store[mk("F", q, k.a[1])] = s.store[k]
            s.store[mk("F", q, "parent")] = p
            if p in s.store: s.store[q] = s.store[p]
            return [(s, q)]
        if p is None or p.k != "N": raise Broken("%s of %s" % (n, p))
        if n == "XML_SetUserData":           # (the macro XML_GetUserData reads the first word of the parser)
            s = st.copy(); s.store[mk("F", p, "user data")] = s.store[p] = a[1]; return [(s, void)]
        if n == "XML_GetUserData": return [(st, st.store.get(mk("F", p, "user data"), NULL))]
        if n in SETTERS:
            s = st.copy()
            for what, v in zip(SETTERS[n], a[1:]):
                if v.k == "ld" and v.a[0].k == "fn": v = v.a[0]
                s.store[self.cb(p, what)] = v
            return [(s, void)]
        if n == "XML_SetParamEntityParsing":
            s = st.copy(); s.mon = s.mon + (("input", "parameter entities", a[1].a[0] if a[1].k == "c" else a[1]),); return [(s, C(1))]
        if n == "XML_ParserReset":
            s = st.copy()
            for k in [k for k in s.store if k is p or k.k == "F" and k.a[0] is p]: del s.store[k]
            return [(s, C(1))]
        if n in ("XML_GetCurrentLineNumber", "XML_GetCurrentColumnNumber"):
            return [(st, C(LINE if "Line" in n else COLUMN))]
        if n == "XML_GetErrorCode": return [(st, C(4))]
        if n == "XML_GetBuffer":
            if self.no_buffer: return [(st, NULL)]
            b = mk("N", "buffer of " + p.a[0]); return [(st, b)]
        if n in ("XML_ParseBuffer", "XML_Parse"):
            return self.parse(A, st, ev, p, a)
        raise Broken("Expat is asked for " + n)

    no_buffer = False

    def parse(self, A, st, ev, p, a):
        b = mk("N", "buffer of " + p.a[0]) if ev.short == "XML_ParseBuffer" else a[1]
        x = st.store.get(mk("F", b, "holds"))
        k = 1 if ev.short == "XML_ParseBuffer" else 2
        if x is None: raise Failed("what is parsed was read", ev.where)
        name, i = x.a
        n = len(self.documents[name])
        ln, fin = a[k], a[k + 1]
        if ln.k != "c" or fin.k != "c": raise Broken("length %s, end %s of a piece" % (ln, fin))
        if ln.a[0] != 101 + i: raise Failed("all that was read is parsed, and no more", ev.where, "piece %d: %s" % (i, ln))
        if bool(fin.a[0]) != (i == n - 1): raise Failed("the last piece, and no other, is marked as the last", ev.where, "piece %d of %d" % (i + 1, n))
        done = mk("F", p, "pieces of " + name)
        if st.store.get(done, C(0)).a[0] != i or st.store.get(mk("F", p, "stopped")) is not None:
            raise Failed("a parser is given each piece of one document once, in order, and nothing after a failure", ev.where, "piece %d" % i)
        s = st.copy(); s.store[done] = C(i + 1)
        return self.play(A, s, ev, p, self.documents[name][i])

    def play(self, A, st, ev, p, events):
        live = [st]; out = []
        for e in events:
            nxt = []
            for s in live:
                if e[0] == "malformed":
                    s = s.copy(); s.store[mk("F", p, "stopped")] = C(1)
                    out.append((s, C(0))); continue
                f = s.store.get(self.cb(p, e[0]), NULL)
                if f is NULL:
                    nxt.append(s); continue
                if f.k != "fn" or f.a[0] not in A.P.fns: raise Broken("handler for %s: %s" % (e[0], f))
                fn = A.P.fns[f.a[0]]
                s = s.copy()
                args = self.c_args(A, s, e)
                first = p if e[0] == "externalEntityRef" else s.store.get(mk("F", p, "user data"), NULL)
                if len(fn.params) != 1 + len(args): raise Broken("parameters of the handler for " + e[0])
                for o in A.run_fn(fn, s, None, [first] + args, ev.frame, ev.node, (ev.depth or 0) + 1):
                    if o.kind == "throw": out.append((o.st, o.exc)); continue
                    if e[0] == "externalEntityRef":
                        t = A.truth(o.st, o.val)
                        if t is None: raise Broken("answer of the external entity handler: %s" % o.val)
                        if not t:
                            s2 = o.st.copy(); s2.store[mk("F", p, "stopped")] = C(1)
                            out.append((s2, C(0))); continue
                    nxt.append(o.st)
            live = nxt
        return out + [(s, C(1)) for s in live]

    count = 0

    def c_args(self, A, st, e):
        """the C arguments of an Expat callback"""
        def ptr(x): return NULL if x is None else lit(x)
        k = e[0]
        if k == "startElement":
            EMon.count += 1
            n = mk("N", "attribute array %d" % EMon.count)
            flat = [lit(x) for q, v in e[2] for x in (q, v)] + [NULL]
            for i, x in enumerate(flat): st.store[mk("I", n, C(i))] = x
            st.store[n] = flat[0]
            return [lit(e[1]), n]
        if k == "characters": return [lit(e[1] + "#more text of the buffer"), C(len(e[1]))]
        if k == "entityDecl":      # name, is parameter, value, base, system, public, notation
            _, name, par, value, sysid, pubid, notation = e
            return [lit(name), C(par), NULL if value is None else lit(value + "#more text"), C(len(value or "")), lit("base"), ptr(sysid), ptr(pubid), ptr(notation)]
        if k == "notationDecl": return [lit(e[1]), lit("base"), ptr(e[2]), ptr(e[3])]
        if k == "attlistDecl": return [lit(e[1]), lit(e[2]), lit(e[3]), ptr(e[4]), C(e[5])]
        if k == "elementDecl": return [lit(e[1]), self.model(A, st, e[2])]
        if k == "startDoctype": return [lit(e[1]), ptr(e[2]), ptr(e[3]), C(1)]
        if k == "skippedEntity": return [lit(e[1]), C(e[2])]
        if k == "externalEntityRef": return [lit("context"), lit("base"), ptr(e[1]), ptr(e[2])]
        return [ptr(x) for x in e[1:]]

    def model(self, A, st, m):
        EMon.count += 1
        n = mk("N", "content model %d" % EMon.count)
        self.fill(A, st, n, m)
        return n

    def fill(self, A, st, n, m):
        t, q, name, kids = m
        ty = {"EMPTY": 1, "ANY": 2, "MIXED": 3, "NAME": 4, "CHOICE": 5, "SEQ": 6}[t]
        F = lambda f: mk("F", n, f)
        st.store[F("type")] = C(ty); st.store[F("quant")] = C({"": 0, "?": 1, "*": 2, "+": 3}[q])
        st.store[F("name")] = lit(name) if name else NULL; st.store[F("numchildren")] = C(len(kids))
        if kids:
            EMon.count += 1
            arr = mk("N", "content models %d" % EMon.count)
            st.store[F("children")] = arr
            for i, k in enumerate(kids):
                self.fill(A, st, mk("I", arr, C(i)), k)
                if i == 0: self.fill(A, st, arr, k)
        else:
            st.store[F("children")] = NULL


SETTERS = {
    "XML_SetElementHandler": ("startElement", "endElement"), "XML_SetStartElementHandler": ("startElement",), "XML_SetEndElementHandler": ("endElement",),
    "XML_SetCharacterDataHandler": ("characters",), "XML_SetProcessingInstructionHandler": ("processingInstruction",),
    "XML_SetCommentHandler": ("comment",), "XML_SetCdataSectionHandler": ("startCData", "endCData"), "XML_SetStartCdataSectionHandler": ("startCData",),
    "XML_SetEndCdataSectionHandler": ("endCData",), "XML_SetDoctypeDeclHandler": ("startDoctype", "endDoctype"),
    "XML_SetStartDoctypeDeclHandler": ("startDoctype",), "XML_SetEndDoctypeDeclHandler": ("endDoctype",),
    "XML_SetElementDeclHandler": ("elementDecl",), "XML_SetAttlistDeclHandler": ("attlistDecl",), "XML_SetEntityDeclHandler": ("entityDecl",),
    "XML_SetNotationDeclHandler": ("notationDecl",), "XML_SetSkippedEntityHandler": ("skippedEntity",),
    "XML_SetExternalEntityRefHandler": ("externalEntityRef",),
}


# ---------------------------------------------------------------- what SAX 2 asks for
def written(m, top=True):
    """a content model as SAX wants it: normalised, no white space"""
    t, q, name, kids = m
    if t in ("EMPTY", "ANY"): return t
    if t == "NAME": return ("(%s)" % name if top else name) + q
    if t == "MIXED": return "(" + "|".join(["#PCDATA"] + [k[2] for k in kids]) + ")" + q
    return "(" + ("|" if t == "CHOICE" else ",").join(written(k, False) for k in kids) + ")" + q


class Ref:
    """the events a user should hear"""
    def __init__(self, docs, handlers, namespaces=True, prefixes=True, external=False, resolver=None):
        self.docs = docs; self.h = handlers; self.ns = namespaces; self.pre = prefixes; self.ext = external; self.resolver = resolver
        self.scopes = [{"xml": XMLURI}]; self.own = []
        self.out = []; self.entities = {}

    def say(self, h, *x):
        if h in self.h: self.out.append((h,) + x)

    def name(self, q, att):
        if not self.ns: return "", "", q
        p, l = q.split(":") if ":" in q else ("", q)
        if not p and att: return "", l, q
        u = self.scopes[-1].get(p, "")
        if p and not u: self.say("ErrorHandler", "error", "?")
        return u, l, q

    def document(self, sysid, pubid=""):
        self.sys, self.pub = sysid, pubid
        self.say("ContentHandler", "setDocumentLocator", "?")
        self.say("ContentHandler", "startDocument")
        self.out.append(("input", "parameter entities", 2 if self.ext else 0))
        self.pieces(sysid, pubid)
        self.say("ContentHandler", "endDocument")
        return self.out

    def pieces(self, sysid, pubid):
        self.out.append(("input", "open", sysid, pubid))
        d = self.docs.get(sysid or pubid)
        if d is None:
            self.say("ErrorHandler", "fatalError", "?"); return False
        for piece in d:
            for e in piece:
                if e[0] == "malformed" or getattr(self, e[0])(*e[1:]) is False:
                    self.say("ErrorHandler", "fatalError", "?"); return False
        return True

    def startElement(self, q, atts):
        if "ContentHandler" not in self.h: return
        s = dict(self.scopes[-1]); decl = []
        if self.ns:
            for a, v in atts:
                if a == "xmlns" or a.startswith("xmlns:"):
                    p = a[6:]; s[p] = v; decl.append((p, a, v))
        self.scopes.append(s); self.own.append([p for p, a, v in decl])
        for p, a, v in decl: self.say("ContentHandler", "startPrefixMapping", p, v)
        rows = [("", "", a, v) for p, a, v in decl] if self.pre else []
        rows += [self.name(a, True) + (v,) for a, v in atts if not (self.ns and (a == "xmlns" or a.startswith("xmlns:")))]
        self.say("ContentHandler", "startElement", *(self.name(q, False) + (tuple(rows),)))

    def endElement(self, q):
        if "ContentHandler" not in self.h: return
        self.say("ContentHandler", "endElement", *self.name(q, False))
        self.scopes.pop()
        for p in self.own.pop(): self.say("ContentHandler", "endPrefixMapping", p)

    def characters(self, t): self.say("ContentHandler", "characters", t)
    def processingInstruction(self, t, d): self.say("ContentHandler", "processingInstruction", t, d)
    def comment(self, t): self.say("LexicalHandler", "comment", t)
    def startCData(self): self.say("LexicalHandler", "startCDATA")
    def endCData(self): self.say("LexicalHandler", "endCDATA")

    def startDoctype(self, n, s, p):
        self.say("LexicalHandler", "startDTD", n, p or "", s or "")
        if s and "LexicalHandler" in self.h: self.entities[s] = "[dtd]"

    def endDoctype(self): self.say("LexicalHandler", "endDTD")
    def notationDecl(self, n, s, p): self.say("DTDHandler", "notationDecl", n, p or "", s or "")

    def entityDecl(self, n, par, value, s, p, notation):
        if par: n = "%" + n
        if value is not None: self.say("DeclHandler", "internalEntityDecl", n, value)
        elif notation is not None: self.say("DTDHandler", "unparsedEntityDecl", n, p or "", s or "", notation)
        else:
            self.say("DeclHandler", "externalEntityDecl", n, p or "", s or "")
            self.entities[s] = n

    def attlistDecl(self, el, at, ty, dflt, req):
        how = ("#FIXED" if dflt is not None else "#REQUIRED") if req else ("" if dflt is not None else "#IMPLIED")
        self.say("DeclHandler", "attributeDecl", el, at, ty, how, dflt or "")

    def elementDecl(self, n, m): self.say("DeclHandler", "elementDecl", n, written(m))
    def skippedEntity(self, n, par): self.say("ContentHandler", "skippedEntity", "%" + n if par else n)

    def externalEntityRef(self, s, p):
        n = self.entities.get(s)
        if not self.ext:
            if n: self.say("ContentHandler", "skippedEntity", n)
            return True
        if n: self.say("LexicalHandler", "startEntity", n)
        sid, pid = s, p or ""
        if "EntityResolver" in self.h:
            self.out.append(("EntityResolver", "resolveEntity", pid, sid))
            if self.resolver: pid, sid = (x or "" for x in self.resolver)
        ok = self.pieces(sid, pid)
        if n: self.say("LexicalHandler", "endEntity", n)
        return ok


def tidy(evs):
    """the order in which prefixes go out of scope, and where declarations stand among attributes, are left open by SAX"""
    out = []; ends = []
    for e in evs:
        if e[0] == "input" and e[1] == "parameter entities":
            continue
        if e[1] == "endPrefixMapping":
            ends.append(e); continue
        out += sorted(ends, key=str); ends = []
        if e[1] == "startElement":
            e = e[:5] + (tuple(a for a in e[5] if a[2] == "xmlns" or a[2].startswith("xmlns:")) + tuple(a for a in e[5] if not (a[2] == "xmlns" or a[2].startswith("xmlns:"))),)
        if e[0] == "ErrorHandler" or e[1] == "setDocumentLocator": e = e[:2] + ("?",)
        if e[1] == "characters" and out and out[-1][1] == "characters":
            if not (isinstance(e[2], str) and isinstance(out[-1][2], str)): raise Broken("text %s" % (e[2],))
            out[-1] = out[-1][:2] + (out[-1][2] + e[2],); continue
        out.append(e)
    return out + sorted(ends, key=str)


def show(evs):
    return " ".join("%s(%s)" % (e[1], ", ".join(str(x) for x in e[2:])) for e in evs)


# ---------------------------------------------------------------- driving the reader
class Reader(Trees):
    reader = "Arabica::SAX::expat_wrapper"

    def __init__(self, P):
        self.P = P; self.mon = EMon(); self.steps = 3000000; self.classes = {}
        self.runs = self.paths = self.salt = 0; self.gval = {}; self.cls = {}; self.fids = {}; self.tyof = {}
        self.mon.W = self; self.mon.documents = {}
        self.exact = {}

    def engine(self):
        A = Trees.engine(self)
        A.max_steps = 3000000; A.max_rec = 8; A.max_depth = 80; A.unroll = 400; A.eager = 10
        self.A = A
        return A

    def run(self, f, this, args, st, keep=False):
        A = self.engine()
        s = st.copy()
        if not keep: s.mon = ()
        outs = A.run(f, this=this, args=list(args), st=s)
        self.runs += 1; self.paths += len(outs)
        self.learn()
        return outs

    def one(self, outs, what, loc):
        if len(outs) != 1 or outs[0].kind != "ret":
            raise Failed(what, loc, ", ".join("%s %s" % (o.kind, o.exc) for o in outs))
        return outs[0]

    def new(self, handlers=tuple(HANDLERS), features=()):
        r, outs = self.obj(self.blank(), self.reader, "reader", pick=lambda f: not f.params)
        st = self.one(outs, "a reader can be made", "").st
        for h in handlers:
            f = final(self.P, self.exact[r], "set" + h, 1)
            st = self.one(self.run(f, r, [mk("N", "user " + h)], st), "a handler can be set", f.loc).st
        f = final(self.P, self.exact[r], "setFeature", 2)
        for n, v in features:
            st = self.one(self.run(f, r, [lit(n), C(v)], st), "feature %s can be set" % n, f.loc).st
        return r, st

    def blank(self):
        from arx.absint import State
        s = State(); s.mon = ()
        return s

    def parse(self, st, r, sysid, pubid=""):
        n = "source %s" % sysid
        s, outs = self.obj(st, "Arabica::SAX::InputSource", n, pick=lambda f: not f.params)
        st = outs[0].st
        for op, v in (("setPublicId", pubid), ("setSystemId", sysid)):
            f = final(self.P, self.exact[s], op, 1)
            st = self.one(self.run(f, s, [lit(v)], st), "%s returns" % op, f.loc).st
        fs = [self.P.fns[self.P.final_overrider(self.exact[r], m["id"]) or m["id"]] for m in self.P.method(self.exact[r], "parse", 1)]
        fs = [f for f in fs if "InputSource" in f.params[0]["ty"]]
        if not fs: raise Broken("parse")
        self.at = fs[0].loc
        return self.run(fs[0], r, [s], st)


FEATURES = "http://xml.org/sax/features/"


def documents():
    e = lambda n, *atts: ("startElement", n, list(atts))
    x = lambda n: ("endElement", n)
    t = lambda s: ("characters", s)
    D = {}
    D["empty"] = [[e("a"), x("a")]]
    D["texts"] = [[e("a"), t("one"), t("two"), e("b"), t("x"), x("b"), t("\n <&>"), x("a")]]
    D["attributes"] = [[e("a", ("x", "1"), ("y", ""), ("z", "two words")), e("b", ("x", "2")), x("b"), x("a")]]
    D["default namespace"] = [[e("a", ("xmlns", "urn:1"), ("x", "v")), e("b"), x("b"), e("c", ("xmlns", "")), e("d"), x("d"), x("c"), e("f", ("xmlns", "urn:2")), x("f"), e("g"), x("g"), x("a")]]
    D["prefixes"] = [[e("p:a", ("k", "v"), ("p:k", "w"), ("xmlns:p", "urn:p"), ("xmlns:q", "urn:q")), e("q:b", ("q:k", "1"), ("xml:lang", "en")), x("q:b"),
                      e("p:c", ("xmlns:p", "urn:p2"), ("p:k", "2")), e("p:d"), x("p:d"), x("p:c"), e("p:e"), x("p:e"), x("p:a")]]
    D["nested without declarations"] = [[e("a", ("xmlns:p", "urn:p"), ("xmlns", "urn:d")), e("b"), e("c"), x("c"), x("b"), e("p:b"), x("p:b"), x("a")]]
    D["same prefix thrice"] = [[e("p:a", ("xmlns:p", "urn:1")), e("p:b", ("xmlns:p", "urn:2")), e("p:c", ("xmlns:p", "urn:3")), x("p:c"), x("p:b"), e("p:d"), x("p:d"), x("p:a")]]
    D["name like a declaration"] = [[e("xmlnsa", ("xmlnsb", "v"), ("x", "w")), x("xmlnsa")]]
    D["declared on siblings"] = [[e("r"), e("p:a", ("xmlns:p", "urn:1")), x("p:a"), e("q:a", ("xmlns:q", "urn:2")), x("q:a"), e("p:b", ("xmlns:p", "urn:3")), x("p:b"), x("r")]]
    D["undeclared prefix"] = [[e("a"), e("p:b", ("xmlns:p", "urn:p")), x("p:b"), e("p:c", ("q:x", "1")), x("p:c"), x("a")]]
    D["lexical"] = [[("comment", "before"), ("processingInstruction", "t", "some data"), e("a"), ("startCData",), t("cdata"), ("endCData",), ("comment", ""), t("b"),
                     ("processingInstruction", "u", ""), x("a"), ("comment", "after")]]
    D["doctype"] = [[("startDoctype", "a", "a.dtd", "-//A"), ("endDoctype",), e("a"), x("a")]]
    D["doctype internal"] = [[("startDoctype", "a", None, None), ("endDoctype",), e("a"), x("a")]]
    D["doctype system"] = [[("startDoctype", "a", "only system", None), ("comment", "in the DTD"), ("endDoctype",), e("a"), x("a")]]
    D["notations"] = [[("startDoctype", "a", None, None), ("notationDecl", "n1", "sys", None), ("notationDecl", "n2", None, "pub"), ("notationDecl", "n3", "sys", "pub"),
                       ("entityDecl", "u1", 0, None, "u.gif", None, "n1"), ("entityDecl", "u2", 0, None, "v.gif", "pub v", "n2"), ("endDoctype",), e("a"), x("a")]]
    D["entities"] = [[("startDoctype", "a", None, None), ("entityDecl", "i1", 0, "value", None, None, None), ("entityDecl", "i2", 0, "", None, None, None),
                      ("entityDecl", "p1", 1, "in a DTD", None, None, None), ("entityDecl", "e1", 0, None, "e1.xml", None, None), ("entityDecl", "e2", 0, None, "e2.xml", "pub e2", None),
                      ("entityDecl", "p2", 1, None, "p2.dtd", "pub p2", None), ("endDoctype",), e("a"), ("skippedEntity", "foo", 0), x("a")]]
    D["skipped parameter entity"] = [[("startDoctype", "a", "d", None), ("skippedEntity", "pe", 1), ("endDoctype",), e("a"), ("skippedEntity", "ge", 0), x("a")]]
    D["attribute declarations"] = [[("startDoctype", "a", None, None), ("attlistDecl", "a", "r", "CDATA", None, 1), ("attlistDecl", "a", "i", "ID", None, 0),
                                    ("attlistDecl", "a", "f", "(x|y)", "x", 1), ("attlistDecl", "a", "d", "NMTOKEN", "dflt", 0), ("attlistDecl", "a", "e", "CDATA", "", 0),
                                    ("attlistDecl", "a", "g", "CDATA", "", 1), ("endDoctype",), e("a"), x("a")]]
    nm = lambda n, q="": ("NAME", q, n, [])
    models = [("EMPTY", "", None, []), ("ANY", "", None, []), ("MIXED", "", None, []), ("MIXED", "*", None, [nm("x")]), ("MIXED", "*", None, [nm("x"), nm("y"), nm("z")]),
              ("SEQ", "", None, [nm("x")]), ("SEQ", "+", None, [nm("x", "?"), nm("y", "*")]), ("CHOICE", "?", None, [nm("x"), nm("y", "+"), nm("z")]),
              ("SEQ", "*", None, [nm("x"), ("CHOICE", "+", None, [nm("y", "?"), ("SEQ", "", None, [nm("z"), nm("w", "*")])]), nm("v")]),
              ("CHOICE", "", None, [("SEQ", "?", None, [nm("x"), nm("y")]), ("SEQ", "", None, [nm("z")])])]
    D["element declarations"] = [[("startDoctype", "a", None, None)] + [("elementDecl", "e%d" % i, m) for i, m in enumerate(models)] + [("endDoctype",), e("a"), x("a")]]
    D["in pieces"] = [[e("a", ("xmlns", "urn:a"))], [t("one")], [e("b"), t("two")], [x("b")], [x("a")]]
    D["no events in a piece"] = [[], [e("a")], [], [x("a")]]
    D["external entity"] = [[("startDoctype", "a", None, None), ("entityDecl", "ext", 0, None, "ext.xml", "pub ext", None), ("endDoctype",), e("p:a", ("xmlns:p", "urn:p")), t("before"),
                             ("externalEntityRef", "ext.xml", "pub ext"), t("after"), x("p:a")]]
    D["ext.xml"] = [[t("inside "), e("p:x", ("xmlns:q", "urn:q"))], [x("p:x"), ("comment", "in it")]]
    D["other.xml"] = [[e("o"), x("o")]]
    D["external subset"] = [[("startDoctype", "a", "sub.dtd", None), ("externalEntityRef", "sub.dtd", None), ("endDoctype",), e("a"), x("a")]]
    D["sub.dtd"] = [[("entityDecl", "i", 0, "v", None, None, None), ("elementDecl", "a", ("ANY", "", None, []))]]
    D["missing external entity"] = [[("startDoctype", "a", None, None), ("entityDecl", "m", 0, None, "missing.xml", None, None), ("endDoctype",), e("a"), ("externalEntityRef", "missing.xml", None), t("never"), x("a")]]
    D["malformed"] = [[e("a", ("xmlns:p", "urn:p")), e("b")], [t("x"), ("malformed",), t("never")], [x("b"), x("a")]]
    D["bad external"] = [[("startDoctype", "a", None, None), ("entityDecl", "m", 0, None, "bad.xml", None, None), ("endDoctype",), e("a"), ("externalEntityRef", "bad.xml", None), t("never"), x("a")]]
    D["bad.xml"] = [[t("x"), ("malformed",)]]
    return D


CONFIGS = [
    ("as it comes", (), True, True, False), ("without namespace-prefixes", (("namespace-prefixes", 0),), True, False, False),
    ("without namespaces", (("namespaces", 0),), False, True, False), ("resolving external entities", (("external-general-entities", 1), ("external-parameter-entities", 1)), True, True, True),
]


def check():
    c = Check("C24", "proof", "the Expat reader run in the abstract interpreter over an Expat that plays documents of every kind of content through the functions the reader "
              "registered: what each of the user's handlers hears, in what order, with what arguments, for every subset of handlers and features tried, split into pieces, "
              "after failures and in a second parse")
    P = Program(["expat"])
    docs = documents()
    main = [d for d in docs if not d.endswith((".xml", ".dtd"))]
    R = Reader(P)
    R.mon.documents = docs
    every = tuple(HANDLERS)

    def guarded(_):
        def deco(f):
            def g(*a):
                try:
                    return f(*a)
                except Failed as x:
                    c.ob(x.what, False, x.where, x.detail)
            return g
        return deco

    def compare(key, outs, want, throws=False):
        got = []
        for o in outs:
            if o.kind != ("throw" if throws else "ret"):
                c.ob(key + ": ends", False, R.at, "%s %s" % (o.kind, o.exc)); continue
            got.append(o)
            g = tidy(o.st.mon); w = tidy(want)
            if throws: w = w[:len(g)]
            d = next((i for i in range(max(len(g), len(w))) if i >= len(g) or i >= len(w) or g[i] != w[i]), None)
            c.ob(key, d is None, R.at, "" if d is None else "heard %s, expected %s (after %s)" % (show(g[d:d + 1]) or "nothing more", show(w[d:d + 1]) or "nothing more", show(g[max(0, d - 2):d])))
            for x in o.st.mon:
                if x[0] == "ErrorHandler":
                    c.ob(key + ": errors tell where they were found", x[2][:2] == (LINE, COLUMN), R.at, str(x))
                if x[1] == "setDocumentLocator":
                    c.ob(key + ": the locator is the reader", x[2] is mk("N", "reader"), R.at, str(x))
        c.ob(key + ": ends in one way", len(outs) == 1, R.at, "%d" % len(outs))
        return got

    def features(fs): return [(FEATURES + n, v) for n, v in fs]

    @guarded(c)
    def whole(name, cfg):
        cn, fs, ns, pre, ext = cfg
        r, st = R.new(every, features(fs))
        R.mon.resolver = None
        want = Ref(docs, every, ns, pre, ext).document(name, "public " + name)
        outs = R.parse(st, r, name, "public " + name)
        for o in compare("%s, %s" % (name, cn), outs, want):
            f = final(P, R.exact[r], "getSystemId", 0), final(P, R.exact[r], "getPublicId", 0)
            for g, v in zip(f, (name, "public " + name)):
                for y in R.run(g, r, [], o.st):
                    w = y.val if y.val.k not in ("F", "T", "L") else R.engine().load(y.st, y.val)
                    c.ob("the locator knows where the document came from", strval(w) is lit(v), g.loc, str(w))
    @guarded(c)
    def subset(hs):
        for name in ("prefixes", "lexical", "notations", "entities", "doctype", "undeclared prefix", "attribute declarations", "malformed", "external entity", "texts"):
            for ext in (False, True):
                if ext and name not in ("external entity", "doctype"): continue
                r, st = R.new(hs, features((("external-general-entities", 1),) if ext else ()))
                compare("%s heard by %s" % (name, ", ".join(hs) or "nobody"), R.parse(st, r, name), Ref(docs, hs, True, True, ext).document(name))

    DECL = ((), (("xmlns:p", "urn:1"),), (("xmlns:p", "urn:2"), ("k", "v")), (("xmlns", "urn:1"),), (("xmlns", ""), ("p:k", "v")))
    kinds = [(d, n) for d in DECL for n in ("a", "p:a")]

    @guarded(c)
    def nest(k1):
        """every way three elements, the third inside or beside the second, declare and use a prefix and a default namespace"""
        for k2 in kinds:
            for k3 in kinds:
                for inside in (True, False):
                    (d1, n1), (d2, n2), (d3, n3) = k1, k2, k3
                    s1, s2, s3 = [("startElement", n, list(d)) for n, d in ((n1, d1), (n2, d2), (n3, d3))]
                    e1, e2, e3 = [("endElement", n) for n in (n1, n2, n3)]
                    doc = [[s1, s2] + ([s3, e3, e2] if inside else [e2, s3, e3]) + [e1]]
                    R.mon.documents = {"d": doc}
                    r, st = readers["every"]
                    compare("elements declaring and using prefixes, %s" % ("nested" if inside else "in a row"), R.parse(st, r, "d"), Ref({"d": doc}, every).document("d"))
        R.mon.documents = docs

    @guarded(c)
    def resolved(ans):
        R.mon.resolver = ans
        for hs in (every, ("ContentHandler", "EntityResolver")):
            r, st = R.new(hs, features((("external-general-entities", 1),)))
            compare("an external entity the resolver finds as %s" % (ans,), R.parse(st, r, "external entity"), Ref(docs, hs, True, True, True, ans).document("external entity"))
        R.mon.resolver = None

    @guarded(c)
    def again(first, second, stop=None):
        r, st = R.new(every)
        R.mon.stop_at = stop
        w1 = Ref(docs, every).document(first)
        o1 = compare("first of two: %s%s" % (first, " stopped at %s %d" % stop if stop else ""), R.parse(st, r, first), w1, bool(stop))
        R.mon.stop_at = None
        for o in o1:
            # the reader may be set up anew between documents
            f = final(P, R.exact[r], "setFeature", 2)
            for y in R.run(f, r, [lit(FEATURES + "namespaces"), C(1)], o.st):
                c.ob("features can be set again once a document is finished", y.kind == "ret", f.loc, "after %s: %s" % (first, y.exc))
            s = o.st.copy()
            for k in [k for k in s.store if k.k == "F" and k.a[0].k == "N" and k.a[0].a[0].startswith("stream ")]: del s.store[k]
            compare("%s parsed after %s%s" % (second, first, " stopped at %s %d" % stop if stop else ""), R.parse(s, r, second), Ref(docs, every).document(second))

    @guarded(c)
    def busy(_):
        """a handler which asks for a feature to be changed during the parse"""
        r, st = R.new(every)
        f = final(P, R.exact[r], "setFeature", 2)
        class Asks(EMon):
            def heard(self, A, st, ev, iface, op):
                for s, v in super().heard(A, st, ev, iface, op):
                    if op == "characters":
                        for n in ("namespaces", "namespace-prefixes", "external-general-entities", "external-parameter-entities"):
                            for o in A.run_fn(f, s, r, [lit(FEATURES + n), C(1)], ev.frame, ev.node, (ev.depth or 0) + 1):
                                c.ob("a feature cannot be changed during a parse", o.kind == "throw" and o.exc.name.endswith("SAXNotSupportedException"), f.loc, n)
                return [(s, v)]
        keep, R.mon = R.mon, Asks()
        R.mon.documents = docs
        R.parse(st, r, "texts")
        R.mon = keep

    @guarded(c)
    def feats(_):
        r, st = R.new(())
        g = final(P, R.exact[r], "getFeature", 1); f = final(P, R.exact[r], "setFeature", 2)
        def get(st, n):
            outs = R.run(g, r, [lit(FEATURES + n)], st)
            return {(o.kind, (R.engine().truth(o.st, o.val) if o.kind == "ret" else o.exc.name.rsplit("::")[-1].split("<")[0])) for o in outs}
        for n, v in (("namespaces", True), ("namespace-prefixes", True), ("external-general-entities", False), ("external-parameter-entities", False), ("validation", False)):
            c.ob("%s is %s at first" % (n, v), get(st, n) == {("ret", v)}, g.loc, str(get(st, n)))
        for n, v in (("namespaces", 0), ("namespace-prefixes", 0), ("external-general-entities", 1), ("namespaces", 1), ("namespace-prefixes", 1)):
            s = R.one(R.run(f, r, [lit(FEATURES + n), C(v)], st), "%s can be set" % n, f.loc).st
            c.ob("%s set to %d is so" % (n, v), get(s, n) == {("ret", bool(v))}, f.loc, str(get(s, n)))
        c.ob("an unknown feature is not recognised", {x[1] for x in get(st, "no such thing")} == {"SAXNotRecognizedException"}, g.loc, str(get(st, "no such thing")))
        for n, x in (("no such thing", "SAXNotRecognizedException"), ("validation", "SAXNotSupportedException")):
            outs = R.run(f, r, [lit(FEATURES + n), C(1)], st)
            c.ob("%s cannot be set" % n, outs and all(o.kind == "throw" and x in o.exc.name for o in outs), f.loc, str(outs))

    @guarded(c)
    def trouble(_):
        r, st = R.new(every)
        compare("a document that cannot be opened", R.parse(st, r, "no such document"), Ref(docs, every).document("no such document"))
        R.mon.no_buffer = True
        want = [x for x in Ref({"texts": [[("malformed",)]]}, every).document("texts")]
        compare("no buffer", R.parse(st, r, "texts"), want)
        R.mon.no_buffer = False

    readers = {"every": R.new(every)}
    work = [(nest, (k,)) for k in kinds]
    work += [(whole, (n, k)) for n in main for k in CONFIGS]
    subsets = [()] + [(h,) for h in every] + [tuple(h for h in every if h != g) for g in every]
    work += [(subset, (hs,)) for hs in subsets]
    work += [(resolved, (a,)) for a in (None, (None, "other.xml"), ("pub", "other.xml"), ("other.xml", None))]
    work += [(again, (a, b)) for a in ("texts", "malformed", "prefixes", "no such document", "entities", "missing external entity") for b in ("declared on siblings", "undeclared prefix", "nested without declarations", "external entity")]
    work += [(again, ("prefixes", b, s)) for b in ("undeclared prefix", "in pieces") for s in (("startElement", 1), ("startElement", 3), ("endElement", 1), ("startPrefixMapping", 1), ("startDocument", 1), ("endDocument", 1), ("setDocumentLocator", 1))]
    work += [(busy, (0,)), (feats, (0,)), (trouble, (0,))]
    c.spread(work, lambda w: w[0](*w[1]), R)
    c.stat("documents", len(main)); c.stat("runs", R.runs); c.stat("paths", R.paths)
    c.floor("cases", len(work), 150)
    return c.finish()
