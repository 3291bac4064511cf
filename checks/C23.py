"""The XSLT stream sink: what is written reads back as the result tree."""
import itertools
from arx.prog import Program, Broken
from arx.absint import C, NULL, mk, contains
from arx.report import Check
from arx.dom import Failed, guarded
from arx.tree import lit
from arx.cont import mapv, ent
from arx.xp import XWorld
from checks.C22 import SMon, Reader, Bad, NS, NAMECHAR, XMLURI, canonical, el, at, brief, split, chars

XS = "Arabica::XSLT::"
DECL = "http://www.w3.org/2000/xmlns/"


class XMon(SMon):
    roots = SMon.roots + ("Arabica::XSLT::", "Arabica::SAX::")
    elsewhere = mk("N", "elsewhere")

    def on_call(self, A, st, ev):
        ops = ([ev.recv] if ev.recv is not None else []) + list(ev.args)
        if ops and ops[0] is self.elsewhere:
            if ev.short in ("operator<<", "put", "write", "flush"): return [(st, self.elsewhere)]
        if ev.name == "std::for_each" and len(ev.args) == 3 and (contains(ev.vals[2], self.elsewhere) or any(v is self.elsewhere and contains(k, ev.args[2]) for k, v in st.store.items())):
            return [(st, ev.vals[2])]
        return super().on_call(A, st, ev)


class XReader(Reader):
    """also reads the XML declaration in full and a document type declaration"""

    def prolog(self):
        """(version, standalone, document type or None), or None when there is no XML declaration"""
        decl = None
        if self.at("<?xml") and (self.i + 5 >= len(self.t) or self.t[self.i + 5] not in NAMECHAR):
            self.take("<?xml"); got = {}; order = []
            while True:
                n = self.space(False)
                if self.at("?>"): self.take("?>"); break
                if not n: raise Bad("white space expected")
                a = self.name(); self.space(False); self.take("="); self.space(False)
                got[a] = self.quoted(); order.append(a)
            if order[:1] != ["version"] or order != [x for x in ("version", "encoding", "standalone") if x in order]: raise Bad("pseudo-attributes %s" % order)
            decl = (got["version"], got.get("standalone"))
            self.space(False)
        return decl

    def quoted(self):
        q = self.t[self.i]
        if q not in ('"', "'"): raise Bad("a quote expected")
        self.i += 1
        return "".join(self.until(q, "a literal"))

    def doctype(self):
        self.take("<!DOCTYPE"); self.space(); n = self.name(); pub = sys = None
        if self.space(False):
            if self.at("PUBLIC"): self.take("PUBLIC"); self.space(); pub = self.quoted(); self.space(); sys = self.quoted(); self.space(False)
            elif self.at("SYSTEM"): self.take("SYSTEM"); self.space(); sys = self.quoted(); self.space(False)
        self.take(">")
        return ("doctype", n, pub, sys)


def joined(xs):
    """result trees have text only: no CDATA sections, no adjacent text"""
    out = []
    for x in xs:
        if x[0] == "cdata": x = ("text", x[1])
        if x[0] == "text" and not x[1]: continue
        if x[0] == "element": x = ("element", x[1], x[2], joined(x[3]))
        if x[0] == "text" and out and out[-1][0] == "text": out[-1] = ("text", out[-1][1] + x[1])
        else: out.append(x)
    return out


def result(s):
    """the result tree an instruction sequence makes"""
    k = s[0]
    if k == "e":
        ats = {}
        for l, ns, nm, v in s[3]:
            if ns != DECL: ats[split((ns, nm) if ns else nm)] = tuple(x for y in pieces(v) for x in y)
        return ("element", split(s[2]), ats, joined([result(x) for x in s[4] if x[0] != "late"]))
    if k in ("t", "raw"): return ("text", tuple(x for y in pieces(s[2]) for x in y))
    if k == "c": return ("comment", tuple(x for y in pieces(s[2]) for x in y))
    if k == "p": return ("pi", s[2], tuple(x for y in pieces(s[5]) for x in y))
    raise Broken(k)


def texts(s, raw):
    """the characters of the text in s, as items written"""
    if s[0] in ("t", "raw"):
        return [(lambda y: y if raw or s[0] == "raw" else mk("esc", "text", y))(C(ord(x)) if isinstance(x, str) else x) for y in pieces(s[2]) for x in y]
    return [x for k in s[4] for x in texts(k, raw)] if s[0] == "e" else []


def pieces(v):
    """a value is given in one or more calls"""
    return [chars(x) for x in v] if isinstance(v, tuple) else [chars(v)]


def arg(cs):
    return lit("".join(cs)) if all(isinstance(x, str) for x in cs) else mk("seq", *[C(ord(x)) if isinstance(x, str) else x for x in cs])


def unspaced(xs):
    return tuple(x for x in xs if x != " ")


def same(a, b, loose=False):
    """loose: white space text may have been added"""
    if isinstance(a, list):
        if loose: a, b = solid(a), solid(b)
        return len(a) == len(b) and all(same(x, y, loose) for x, y in zip(a, b))
    if a[0] != b[0]: return False
    if a[0] == "element": return a[1] == b[1] and a[2] == b[2] and same(a[3], b[3], loose)
    if a[0] in ("comment", "pi"): return a == b or a[1:-1] == b[1:-1] and unspaced(a[-1]) == unspaced(b[-1]) and parted(b) and shifted(a[-1], b[-1])
    return a == b


def solid(xs):
    out = [x if x[0] != "text" else ("text", tuple(c for c in x[1] if c not in (" ", "\n", "\r"))) for x in xs]
    return [x for x in out if x[0] != "text" or x[1]]


def parted(x):
    """whether the contents cannot be written as they are"""
    v = x[-1]
    pairs = list(zip(v, v[1:]))
    return (("-", "-") in pairs or v[-1:] == ("-",)) if x[0] == "comment" else ("?", ">") in pairs


def shifted(got, want):
    """got is want with spaces put in"""
    i = 0
    for g in got:
        if i < len(want) and g == want[i]: i += 1
        elif g != " ": return False
    return i == len(want)


class Sink:
    copied = False

    def __init__(self, W, st, settings=(), cdata=(), warn=True):
        self.W = W
        self.s, outs = W.obj(st, XS + "StreamSink", "sink", W.mon.out)
        self.st = outs[0].st
        names = []
        for i, (p, l, u) in enumerate(cdata):
            q, outs = W.obj(self.st, XS + "QName", "listed%d" % i, lit(p), lit(l), lit(u)); self.st = outs[0].st
            names.append(ent(mk("o", q), NULL))
        w, outs = W.obj(self.st, XS + "StreamSink", "warnings", W.mon.elsewhere); self.st = outs[0].st
        self.sts = [self.st]
        self.call("set_warning_sink", w)
        self.call("start_document", mapv(*[ent(lit(k), lit(v)) for k, v in settings]), mapv(*names))
        self.n = 0

    def call(self, name, *a):
        W = self.W
        a = [lit(x) if isinstance(x, str) else x for x in a]
        f = W.fn(self.s, name, len(a))
        nxt = []
        for st in self.sts:
            for o in W.engine_run(f, self.s, a, st):
                if o.kind != "ret": raise Failed("%s succeeds" % name, f.loc, str(o.exc))
                nxt.append(o.st)
            bad = [k for k in W.A.opaque if k.startswith("Arabica::") and "~" not in k]
            if bad: raise Broken("%s is not analysed" % bad[0])
        if not 0 < len(nxt) < 100: raise Broken("%s has %d outcomes" % (name, len(nxt)))
        self.sts = nxt
        self.where = f.loc

    def named(self, op, n, local):
        """by qualified name, and in parts"""
        u, q = n if isinstance(n, tuple) else ("", n)
        p = q.split(":")[0] if ":" in q else ""
        self.n += 1
        return (op, q, u) if self.n % 2 else (op, p, q.split(":")[-1], u)

    def text(self, v):
        for x in pieces(v): self.call("characters", arg(x))

    def attribute(self, a):
        l, ns, nm, v = a
        u, q = (ns or "", nm)
        if self.copied:
            self.call("add_attribute", u, q.split(":")[-1], q, arg([x for y in pieces(v) for x in y]))
            return
        self.call(*self.named("start_attribute", (u, q), nm))
        self.text(v); self.call("end_attribute")

    def emit(self, s):
        k = s[0]
        if k == "e":
            n = self.named("start_element", s[2], None)
            self.call(*n)
            for a in s[3]: self.attribute(a)
            for x in s[4]: self.emit(x)
            self.call("end_element", *n[1:])
        elif k == "raw": self.call("disableOutputEscaping", C(1)); self.text(s[2]); self.call("disableOutputEscaping", C(0))
        elif k == "late": self.attribute(s[1])
        elif k == "t": self.text(s[2])
        elif k == "c": self.call("start_comment"); self.text(s[2]); self.call("end_comment")
        elif k == "p": self.call("start_processing_instruction", s[2]); self.text(s[5]); self.call("end_processing_instruction")
        else: raise Broken(k)

    def done(self):
        self.call("end_document")
        ws = [st.store.get(mk("F", self.W.mon.out, "written")) for st in self.sts]
        return list(dict.fromkeys(w.a if w is not None else () for w in ws))


def shown(toks):
    return "".join(chr(x.a[0]) if x.k == "c" else chr(x.a[1].a[0]) if x.k == "esc" and x.a[1].k == "c" else "?" for x in toks)


@guarded
def check():
    c = Check("C23", "proof", "every sequence of output operations of the families below is given to the stream sink, on one path, and a namespace-aware reader written "
              "from the recommendations gets the result tree back")
    P = Program(["dom", "xpath", "xslt"])
    W = XWorld(P, XMon())
    base = W.start()
    unknown = lambda *n: mk("seq", *[mk("numvar", "char%s" % x) for x in n])
    cases = [0]

    def run(job):
        what, specs, settings, listed, copied = job
        k = Sink(W, base, settings, listed); k.copied = copied
        for s in specs: k.emit(s)
        want = joined([result(s) for s in specs])
        for toks in k.done(): judged(what, specs, dict(settings), listed, k.where, toks, want)

    def judged(what, specs, S, listed, where, toks, want):
        if S.get("method") == "text" or any(s[0] == "raw" for s in specs):
            plain = [x for s in specs for x in texts(s, S.get("method") == "text")]
            body = list(toks) if S else list(toks[len('<?xml version="1.0"?>\n'):])
            c.ob("%s: the text is written as it is" % what, body == plain, where, "written: %s" % shown(toks)[:300])
            return
        try:
            r = XReader(toks); decl = r.prolog()
            out = []; docs = []
            while r.more() and r.at("<!DOCTYPE") or r.at("<!--") or r.at("<?") or r.at("\n"):
                if r.at("<!DOCTYPE"): docs.append(r.doctype()); r.space(False)
                elif r.at("\n"): r.space(False)
                elif r.at("<!--"): r.take("<!--"); out.append(("comment", r.until("-->", "a comment")))
                else:
                    r.take("<?"); n = r.name()
                    if not r.at("?>"): r.space()
                    out.append(("pi", n, r.until("?>", "a processing instruction")))
            got = out + r.content({"xml": XMLURI}, None)
        except (Bad, IndexError) as e:
            c.ob("%s: reads back as the result tree" % what, False, where, "%s; written: %s" % (e, shown(toks)[:200]))
            return
        loose = S.get("indent") == "yes"
        c.ob("%s: reads back as the result tree" % what, same(joined(got), want, loose), where, "written: %s" % shown(toks)[:300])
        root = [s for s in specs if s[0] == "e"]
        omit = S.get("omit-xml-declaration") == "yes"
        c.ob("%s: the XML declaration is as asked for" % what, decl == (None if omit or not toks else (S.get("version", "1.0"), S.get("standalone"))), where, "%s; written: %s" % (decl, shown(toks)[:200]))
        dt = S.get("doctype-system") if root else None
        ok = (len(docs) == 1 and docs[0][2:] == (S.get("doctype-public"), dt) and docs[0][1].split(":")[-1] == split(root[0][2])[1]) if dt else not docs
        c.ob("%s: the document type is as asked for" % what, ok, where, "%s; written: %s" % (docs, shown(toks)[:200]))
        names = {(u, l) for p, l, u in listed}

        def sections(xs, inside):
            for x in xs:
                if x[0] == "element": sections(x[3], x[1] in names)
                elif x[0] in ("text", "cdata") and x[1]:
                    if loose and not any(y not in (" ", "\n", "\r") for y in x[1]): continue
                    c.ob("%s: CDATA sections are for the listed elements" % what, (x[0] == "cdata") == inside, where, "written: %s" % shown(toks)[:200])
        sections(got, False)
    jobs = []

    def add(specs, settings=(), listed=(), note="", copied=False):
        jobs.append(("%s%s" % (", ".join(label(s) for s in specs), note), specs, tuple(settings), tuple(listed), copied))

    def label(s):
        if s[0] == "late": return "@%s late" % s[1][2]
        if s[0] == "e":
            q = lambda n: "{%s}%s" % n if isinstance(n, tuple) else n
            return "<%s%s>%s" % (q(s[2]), "".join(" " + (("{%s}" % a[1] if a[1] is not None else "") + a[2]) for a in s[3]), "(" + ", ".join(label(x) for x in s[4]) + ")" if s[4] else "")
        v = s[5] if s[0] == "p" else s[2]
        return {"raw": "raw text", "t": "text", "c": "comment", "p": "PI"}[s[0]] + " " + "+".join("".join(x if isinstance(x, str) else "?" for x in y) for y in pieces(v))

    # ---- namespaces
    for a, x, y in itertools.product(NS, NS, NS):
        if canonical((a, x, y)):
            add([el("r", a, [at("@x", x), at("@y", y)])])
            add([el("r", a, [at("@x", x), at("@y", y)])], note=", copied", copied=True)
    for a, b, d in itertools.product(NS, NS, NS):
        if canonical((a, b, d)):
            add([el("r", a, [], [el("k", b, [], [el("m", d)])])])
            add([el("r", a, [], [el("k", b), el("m", d)])])
            add([el("r", a, [at("@x", b)], [el("k", d, [], [("t", "t", unknown(1))])])])
    for a, x, b, y in itertools.product(NS, NS, NS, NS):
        if canonical((a, x, b, y)) and (x is None or y is None or a is None or b is None or (a[1], x[1], b[1], y[1]).count("") < 2):
            add([el("r", a, [at("@x", x)], [el("k", b, [at("@y", y)])])])
    AUTO = [("u2", ""), ("u3", ""), ("u3", "auto-ns1"), ("u1", "auto-ns1"), ("u2", "auto-ns2")]
    for a, x, y in itertools.product([None, ("u1", "auto-ns1"), ("u1", ""), ("u3", "auto-ns1")], AUTO, AUTO):
        if x != y: add([el("r", a, [at("@x", x), at("@y", y)])])
        add([el("r", a, [at("@x", x)], [el("k", ("u1", "auto-ns1"), [at("@y", y)], [el("m", ("u2", "auto-ns1"))])])])
    for a in NS:
        add([el("r", a, [("@l", XMLURI, "xml:lang", "en")], [el("k", a, [("@m", XMLURI, "xml:space", "preserve")])])])
    dec = lambda p, u: ("@d", DECL, "xmlns:" + p if p else "xmlns", u)
    for a, b in itertools.product(NS, NS):
        for p, u in (("p", "u1"), ("p", "u3"), ("z", "u1"), ("z", "u3"), ("", "u1"), ("", "u3"), ("auto-ns1", "u3"), ("auto-ns1", "u1")):
            if (p, u) in (("", "u3"), ("", "u1")) and (a is None or a[1]): continue     # cannot be met with
            d = dec(p, u)
            add([el("r", a, [at("@x", b), d], [el("k", b)])], note=", copied", copied=True)
            add([el("r", a, [d, at("@x", b), dec("y", "u3")], [el("k", b, [at("@y", a)]), el("m", a, [d], [el("n", b)])])], note=", copied", copied=True)
    # ---- attributes given twice or too late
    for x, y in itertools.product(NS, NS):
        if canonical((x, y)):
            add([el("r", None, [at("@x", x, unknown(1)), at("@z", None, unknown(2)), at("@x2", y, unknown(3), local="x")])])
    add([el("r", None, [at("@x", None, unknown(1))], [("t", "t", unknown(2)), ("late", at("@y", None, unknown(3))), ("t", "t", unknown(4)), el("k", None), ("late", at("@x", None, unknown(5)))])])
    add([el("r", None, [], [("c", "c", "ab"), ("late", at("@y", None, unknown(3))), ("t", "t", unknown(4))])])
    # ---- contents
    V = {"t": [unknown(1), (unknown(1), unknown(2, 3)), "ab", "", ("", unknown(1), "")], "c": ["", "ab", "x y", ("a", "bc")]}
    KIND = [(k, k, v) for k in "tc" for v in V[k]] + [("p", "p", "target", (), (), v) for v in V["c"]] + [el("k", None, [at("@a", None, (unknown(6), "b", unknown(7)))])]
    for a in KIND:
        add([el("r", None, [], [a])]); add([a])
        for b in KIND:
            add([el("r", ("u1", "p"), [], [a, b])])
            add([el("r", None, [], [el("m", None, [], [a]), b])])
    for n in range(6):
        for x in itertools.product("-x", repeat=n): add([el("r", None, [], [("c", "c", "".join(x))])])
        for x in itertools.product("?>x", repeat=n):
            if n < 5: add([el("r", None, [], [("p", "p", "target", (), (), "".join(x))])])
    for i in range(1, 4): add([el("r", None, [], [("c", "c", ("-" * i, "-" * (4 - i)))])])
    # ---- CDATA sections
    L = [("", "r", "")]
    for n in range(6):
        for x in itertools.product("]>x", repeat=n):
            v = "".join(x)
            if n < 5 or "]]>" in v: add([el("r", None, [], [("t", "t", v)])], (), L, ", listed")
            if "]]>" in v:
                for i in range(1, n): add([el("r", None, [], [("t", "t", (v[:i], v[i:]))])], (), L, ", listed")
    for v in ("]]>]]>]]>", "a]]>b]]>c", "x]]>yy]]>zzz]]>", ("]", "]", ">"), ("a]", "]", ">b"), "]]>]]]>]]]]>", ("]]>]", "]>"), ("]]", "", ">"), ("]]", ">]]", ">")):
        add([el("r", None, [], [("t", "t", v)])], (), L, ", listed")
    for p, l, u in (("", "k", ""), ("p", "k", "u1"), ("", "k", "u1"), ("z", "k", "u1"), ("", "m", ""), ("p", "k", "u2")):
        for n in NS:
            add([el("r", None, [("@a", None, "a", unknown(9))], [("t", "t", unknown(1)), el("k", n, [at("@b", None, unknown(8))], [("t", "t", unknown(2)), el("m", None, [], [("t", "t", unknown(3))]), ("t", "t", unknown(4)), ("c", "c", "ab"), ("t", "t", unknown(5))]), ("t", "t", unknown(6))])],
                (), [(p, l, u)], ", {%s}%s listed" % (u, l))
    # ---- settings
    R = el("r", ("u1", "p"), [at("@x", None)], [("t", "t", "ab"), el("k", None)])
    com = ("c", "c", "ab"); pi = ("p", "p", "target", (), (), "data")
    for omit, alone, ver, sysid, pub in itertools.product((None, "yes", "no"), (None, "yes", "no"), (None, "1.1"), (None, "system"), (None, "public")):
        S = [(k, v) for k, v in (("omit-xml-declaration", omit), ("standalone", alone), ("version", ver), ("doctype-system", sysid), ("doctype-public", pub)) if v]
        for specs in ([R], [com, R], [pi, com, R, com], [com]) if omit is None or alone is None else ([R],):
            add(specs, S, (), ", %s" % ", ".join("%s=%s" % x for x in S))
    for specs in ([R], [com, R], [el("r", None, [], [el("k", None, [], [el("m", None), el("n", None)]), el("l", None, [], [el("m", None)])])], [el("r", None, [], [el("k", None), ("t", "t", unknown(1)), el("l", None)])],
                  [el("r", None, [], [el("k", None, [], [com, ("t", "t", unknown(1))]), pi])]):
        add(specs, [("indent", "yes")], (), ", indent=yes"); add(specs, [("indent", "yes")], [("", "k", "")], ", indent=yes, k listed"); add(specs, [("indent", "no"), ("method", "xml")], (), ", indent=no")
    T = ("t", "t", unknown(1, 2)); T2 = ("t", "t", ("<&>", unknown(3)))
    for specs in ([T], [T2], [com, T, pi], [el("r", ("u1", "p"), [at("@x", None, unknown(9)), at("@y", ("u2", ""))], [T, el("k", None, [], [T2, com]), el("k", ("u2", "q"), [at("@x", ("u3", "q"))]), T, pi]), T2]):
        for S in ([], [("indent", "yes")], [("omit-xml-declaration", "no"), ("doctype-system", "s")]): add(specs, [("method", "text")] + S, [("", "k", "")] if S else [], ", %s" % ", ".join("%s=%s" % x for x in [("method", "text")] + S))
    raw = lambda *n: ("raw", "t", n)
    for specs in ([raw(unknown(1))], [raw("<&>", unknown(1)), T2], [T, raw(unknown(3, 4), "]]>"), T2, raw("")]): add(specs, note=", not escaped")
    c.spread(jobs, run, W); cases[0] += len(jobs)
    c.floor("sequences", cases[0], 1500)
    c.stat("sequences", cases[0]); c.stat("runs", W.runs); c.stat("paths", W.paths)
    return c.finish()
