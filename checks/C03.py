"""SAX writer: output of every event, over every event history."""
import re
from arx.prog import Program, Broken
from arx.absint import AbsInt, mk, C, contains, subterms
from arx.rules import StreamOut, Explorer, merge_generalise, render, strip
from arx.report import Check

EV = {  # event -> parameter names
    "startDocument": [], "endDocument": [], "startPrefixMapping": ["prefix", "uri"], "endPrefixMapping": ["prefix"],
    "startElement": ["uri", "local", "qname", "atts"], "endElement": ["uri", "local", "qname"], "characters": ["ch"],
    "ignorableWhitespace": ["ch"], "processingInstruction": ["target", "data"], "skippedEntity": ["name"],
    "startDTD": ["name", "pub", "sys"], "endDTD": [], "startEntity": ["name"], "endEntity": ["name"], "startCDATA": [],
    "endCDATA": [], "comment": ["text"], "notationDecl": ["name", "pub", "sys"],
    "unparsedEntityDecl": ["name", "pub", "sys", "notation"], "elementDecl": ["name", "model"],
    "attributeDecl": ["element", "attribute", "type", "default", "value"], "internalEntityDecl": ["name", "value"],
    "externalEntityDecl": ["name", "pub", "sys"]}

ENT = ("startEntity", "endEntity", "skippedEntity")
# the names an implementation has to tell apart from "[dtd]" (each differs from it in one respect), and an ordinary one
NAMES = ["[dtd]", "amp", "", "[dtd", "dtd]", "xdtd]", "[xtd]", "[dxd]", "[dtx]", "[dtdx", "[dtd]x", "[DTD]"]
DECL = {"notationDecl", "unparsedEntityDecl", "elementDecl", "attributeDecl", "internalEntityDecl", "externalEntityDecl"}
IND = r"(?:\{\* \*\})*"           # indentation: a loop writing one space
def att(obj):
    one = r'\{\* \{%s\.(?:getQName|getLocalName)\(%s\)\}="\{attr:%s\.getValue\(%s\)\}"\*\}'
    return "(?:%s|%s)*" % (one % (obj, "0", obj, "0"), one % (obj, "i", obj, "i"))





class Mon(StreamOut):
    escapers = {"text_escaper": "text", "attribute_escaper": "attr"}
    own = ()

    def inline(self, A, fn, ev):
        return fn.cls in self.own or not fn.cls or (fn.clsn or "").startswith("Arabica::XML::") or "string_adaptor" in (fn.clsn or "")

    def event(self, A, st, ev):
        if (ev.cls or "").endswith("SAX::XMLFilterImpl") and ev.short in EV and ev.kind == "call":
            st = st.copy(); self.tok(st, ("fwd", ev.short) + tuple(ev.vals))
            return [(st, mk("void"))]
        if (ev.cls or "").endswith("SAX::AttributesImpl") and ev.recv is not None and ev.recv.k == "F":
            if ev.short == "addAttribute":
                st = st.copy(); self.tok(st, ("pend",) + tuple(ev.vals)); return [(st, mk("void"))]
            if ev.short == "clear":
                st = st.copy(); self.tok(st, ("clear",)); return [(st, mk("void"))]
        return None


def namer(names):
    def name(t):
        if t.k == "ld": return name(t.a[0])
        if t.k == "p": return names[t.a[0]] if t.a[0] < len(names) else "arg%d" % t.a[0]
        if t.k == "c": return str(t.a[0])
        if t.k == "w": return "i"
        if t.k == "cast": return name(t.a[1])
        if t.k == "F": return "." + t.a[1]
        if t.k == "ca": return "ctor-arg"
        if t.k == "call":
            return "%s.%s(%s)" % (name(t.a[1]), t.a[0].rsplit("::", 1)[-1], ",".join(name(x) for x in t.a[2:] if x.k != "ld" or True))
        if t.k == "cond": return "cond"
        return t.k
    return name


def spec(ev, q, A, st, names, const):
    """regular expression for the output of ev in specification state q, and the next state"""
    opened, cdata, dtd, ext = q
    p = lambda i: mk("ld", mk("p", i))
    empty = lambda n: A.truth(st, A.compare(st, "==", A.size_of(p(names.index(n))), C(0)))
    def opt(n, txt):      # written exactly when the string is not empty
        e = empty(n)
        return "" if e else txt if e is False else "(?:%s)?" % txt
    def qn():
        e = empty("qname")
        return r"\{local\}" if e else r"\{qname\}" if e is False else r"\{(?:qname|local)\}"
    pre = ">" if opened else ""
    nq = (False, cdata, dtd, ext)
    def pubsys():
        P, S = empty("pub"), empty("sys")
        if P and S: return " ?"
        if P: return r' SYSTEM "\{sys\}"'
        if S: return r' PUBLIC "\{pub\}"'
        return r' PUBLIC "\{pub\}" "\{sys\}"'
    vis = not dtd or not ext
    if ev == "startDocument":
        return pre + r'<\?xml version="1\.0"(?: encoding="\{[^}]*\}")?\?>\n', (False, False, dtd, ext)
    if ev == "endDocument":
        return pre, nq
    if ev in ("startPrefixMapping", "endPrefixMapping"):
        return "", q
    if ev == "startElement":
        return pre + r"\n?" + IND + "<" + qn() + att(r"\.[A-Za-z_]+") + att("atts"), (True, cdata, dtd, ext)
    if ev == "endElement":
        return (r"/>\n?" if opened else IND + "</" + qn() + r">\n?"), nq
    if ev == "characters":
        return pre + (r"\{ch\}" if cdata else r"\{text:ch\}"), nq
    if ev == "ignorableWhitespace":
        return pre + r"\{ch\}", nq
    if ev == "processingInstruction":
        return pre + (r"<\?\{target\}" + opt("data", r" \{data\}") + r"\?>" if vis else ""), nq
    if ev == "skippedEntity":
        return pre + ("" if const == "[dtd]" else re.escape("&%s;" % const)), nq
    if ev == "startDTD":
        return pre + r"<!DOCTYPE \{name\}" + pubsys() + r" \[\n", (False, cdata, True, ext)
    if ev == "endDTD":
        return pre + r"\]>\n", (False, cdata, False, ext)
    if ev in ("startEntity", "endEntity"):
        return pre, nq[:3] + ((ev == "startEntity") if const == "[dtd]" else ext,)
    if ev == "startCDATA":
        return pre + r"<!\[CDATA\[", (False, True, dtd, ext)
    if ev == "endCDATA":
        return pre + r"\]\]>", (False, False, dtd, ext)
    if ev == "comment":
        return pre + (r"<!--\{text\}-->" if vis else ""), nq
    if ev in DECL:
        if not (dtd and not ext):
            return pre, nq
        body = {"notationDecl": lambda: r"<!NOTATION \{name\}" + pubsys() + r">\n",
                "unparsedEntityDecl": lambda: r"<!ENTITY \{name\}" + pubsys() + r" NDATA \{notation\}>\n",
                "elementDecl": lambda: r"<!ELEMENT \{name\} \{model\}>\n",
                "attributeDecl": lambda: r"<!ATTLIST \{element\} \{attribute\} \{type\}" + opt("default", r" \{default\}")
                                         + opt("value", r' "\{value\}"') + r">\n",
                "internalEntityDecl": lambda: r'<!ENTITY \{name\} "\{value\}">\n',
                "externalEntityDecl": lambda: r"<!ENTITY \{name\}" + pubsys() + r">\n"}[ev]()
        return pre + IND + body, nq
    raise Broken(ev)


def legal(ev, q, ctx):
    opened, cdata, dtd, ext = q
    if cdata:
        return ev in ("characters", "endCDATA")
    if ev == "endCDATA":
        return False
    if dtd:
        return ev in DECL | {"comment", "processingInstruction", "startEntity", "endEntity"} | (set() if ext else {"endDTD"})
    if ev in DECL | {"endDTD"}:
        return False
    if ev in ("startDTD", "startDocument"):
        return not opened
    return True


def check():
    c = Check("C03", "proof", "product of the writer's abstract state with a specification automaton over all event histories; "
              "the text inserted on every path of every event matches the language of that event")
    P = Program(["sax"])
    rec = P.one_rec("Arabica::SAX::Writer")["id"]
    mon = Mon(); mon.own = {rec}
    ops = []
    for n, ps in EV.items():
        ms = [m for m in P.methods(rec) if m["name"] == n and len(m["params"]) == len(ps)]
        if not ms or ms[0]["id"] not in P.fns:
            # an event the writer does not override is simply passed on: nothing to write
            if n not in ("endPrefixMapping",):
                c.ob("the writer handles %s" % n, False, P.recs[rec]["loc"] if "loc" in P.recs[rec] else "", "no handler")
            continue
        ops.append((n, P.fns[ms[0]["id"]]))
    ex = Explorer(P, rec, mon)
    starts = []
    nct = 0
    for m in P.methods(rec):
        if m.get("kind") == "ctor" and m["id"] in P.fns and not P.fns[m["id"]].implicit:
            nct += 1
            starts += ex.construct(P.fns[m["id"]])
    c.floor("constructors", nct, 4)
    c.floor("events handled", len(ops), 22)
    npaths = [0]
    seen = set()
    work = [(merge_generalise(starts), (False, False, False, False))]
    npairs = 0
    while work:
        snap, q = work.pop()
        # constructor arguments and other symbolic fields are the same for every history
        key = (frozenset(snap.items()), q)
        if key in seen:
            continue
        seen.add(key)
        if len(seen) > 600:
            raise Broken("writer exploration does not converge")
        for name, fn in ops:
            if not legal(name, q, None):
                continue
            names = EV[name]
            nm = namer(names)
            runs = []
            if name in ENT:
                for text in NAMES:
                    A, outs = ex.step(snap, fn, args={0: mk("s", text)})
                    runs += [(A, o, text) for o in outs]
            else:
                A, outs = ex.step(snap, fn)
                runs = [(A, o, None) for o in outs]
            for A, o, const in runs:
                if const == "[dtd]" and (not q[2] or (name == "endEntity") != q[3]) and name != "skippedEntity":
                    continue            # not an event history a parser can produce
                npaths[0] += 1
                if o.kind != "ret":
                    c.ob("%s returns normally" % name, False, fn.loc, str(o.exc)); continue
                toks = [t for t in strip(o.st.mon)]
                fwd = [t for t in toks if isinstance(t, tuple) and t[0] == "fwd"]
                out = [t for t in toks if not (isinstance(t, tuple) and t[0] in ("fwd", "pend", "clear"))]
                text = render(out, nm)
                pend = [t for t in toks if isinstance(t, tuple) and t[0] == "pend"]
                clears = [i for i, t in enumerate(toks) if isinstance(t, tuple) and t[0] == "clear"]
                if name == "startPrefixMapping":
                    e = A.truth(o.st, A.compare(o.st, "==", A.size_of(mk("ld", mk("p", 0))), C(0)))
                    good = len(pend) == 1 and norm(pend[0][-1]) is mk("ld", mk("p", 1)) and e is not None and \
                        (e is True) != any(hasattr(x, "k") and contains(x, mk("p", 0)) for x in pend[0][3:4])
                    c.ob("startPrefixMapping keeps the declaration for the next start tag", good, fn.loc, str(pend))
                else:
                    c.ob("only startPrefixMapping adds declarations", not pend, fn.loc, name)
                if name == "startElement":
                    late = [i for i, t in enumerate(toks) if isinstance(t, tuple) and t[0] == "*" and "{." in render((t,), nm)]
                    c.ob("startElement forgets the declarations it has written", bool(clears) and all(i < clears[0] for i in late), fn.loc,
                         "declarations are not dropped after being written")
                    for obj, pat in (("attributes", r"\{atts\.get\w+Name\((0|i)\)\}"), ("declarations", r"\{\.\w+\.get\w+Name\((0|i)\)\}")):
                        met = set(re.findall(pat, text))
                        n = 0 if not met else 2
                        if n < 2:
                            ls = [t for t in lengths(o.st) if (t.a[1].k == "p") == (obj == "attributes")]
                            s2 = o.st.copy()
                            c.ob("startElement writes all %s" % obj, bool(ls) and not all(A.assume(s2, mk("op", "==", t, C(n + 1)), True) for t in ls),
                                 fn.loc, "stops after %d of %d" % (n, n + 1))
                elif name not in ("startDocument", "endDocument"):
                    c.ob("declarations stay pending until the next start tag", not clears, fn.loc, name)
                rx, nq = spec(name, q, A, o.st, names, const)
                ok = re.fullmatch(rx, text) is not None
                c.ob("%s writes its markup%s%s" % (name, " after an open start tag" if q[0] else "", " in CDATA" if q[1] else ""),
                     ok, fn.loc, "writes %r, expected %s in state open=%s cdata=%s dtd=%s external=%s" % ((text, rx) + q))
                # line feeds and indentation only on request
                arg = lambda i: mk("s", const) if const is not None else mk("ld", mk("p", i))
                want = [("fwd", name) + tuple(arg(i) for i in range(len(names)))]
                got = [tuple(norm(x) for x in t) for t in fwd]
                c.ob("%s is passed on once with its own arguments" % name, got == [tuple(norm(x) for x in w) for w in want], fn.loc,
                     "forwards %s" % (fwd,))
                work.append((ex.snapshot(o.st), nq))
                npairs += 1
    c.stat("abstract states x specification states", len(seen))
    c.floor("event paths checked", npaths[0], 200)
    c.stat("transitions", npairs)
    return c.finish()


def lengths(st):
    out = set()
    for t in list(st.dom):
        for x in subterms(t):
            if x.k == "call" and x.a[0].endswith("::getLength"):
                out.add(x)
    return out


def norm(x):
    if not isinstance(x, str) and x.k == "p":
        return mk("ld", x)
    return x
