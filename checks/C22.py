"""Writing a DOM tree as markup: what is written reads back as the same tree."""
import itertools
from arx.prog import Program, Broken
from arx.absint import C, NULL, mk
from arx.report import Check
from arx.dom import Failed, guarded, merge
from arx.tree import lit
from arx.strs import strval, uncast
from arx.xp import XWorld, NSX
from checks.C21 import FMon

XMLNS = "http://www.w3.org/2000/xmlns/"
XMLURI = "http://www.w3.org/XML/1998/namespace"
ESC = {"text_escaper": "text", "attribute_escaper": "attr"}


class SMon(FMon):
    """what is written into the one stream given is kept with it; characters which are not known stay symbols"""
    out = mk("N", "stream")
    slots = {}

    def load(self, A, st, loc):
        if loc.k == "F" and loc.a[0] is self.out and loc not in st.store and loc.a[1][:1] in "pi" and loc.a[1][1:].isdigit():
            return NULL if loc.a[1][0] == "p" else C(0)
        return super().load(A, st, loc)

    def write(self, st, *toks):
        s = st.copy(); k = mk("F", self.out, "written")
        cur = s.store.get(k)
        s.store[k] = mk("toks", *((cur.a if cur is not None else ()) + toks))
        return s

    def units(self, A, st, ev, i):
        """what inserting argument i writes"""
        v = ev.vals[i]
        if v.k == "ld" and v.a[0].k == "fn": v = v.a[0]
        if v.k == "fn":
            n = A.P.fns[v.a[0]].name if v.a[0] in A.P.fns else str(v.a[0])
            return [C(10)] if "endl" in n else []
        ty = self.ptype(ev, i).replace("const", "").replace("&", "").strip()
        if ty in ("char", "wchar_t", "signed char", "unsigned char"): return [uncast(v)]
        if v.k == "c": return [C(ord(x)) for x in str(v.a[0])]
        cs = self.chars(A, st, ev.args[i])
        if cs is None: cs = self.chars(A, st, v)
        if cs is None: raise Broken("written: %s (%s) in %s" % (v, ty, ev.where))
        return [uncast(x) for x in cs]

    def functor_of(self, A, ev, loc, val):
        rec = A.exact.get(loc) or A.exact.get(val)
        return A.P.recs[rec]["name"] if rec else ev.infn.nodes[ev.infn.nodes[ev.node]["args"][2]].get("ty", "")

    def on_call(self, A, st, ev):
        cls = (ev.cls or "").split("<")[0]
        ops = ([ev.recv] if ev.recv is not None else []) + list(ev.args)
        if ev.name in ("std::ios_base::xalloc",) or ev.short == "xalloc":
            k = (ev.infn.id, ev.node)
            return [(st, C(self.slots.setdefault(k, 4 + len(self.slots))))]
        if ops and ops[0] is self.out:
            vi = 0 if ev.recv is not None else 1
            if ev.short in ("pword", "iword") and ev.vals and ev.vals[-1].k == "c":
                return [(st, mk("F", self.out, ev.short[0] + str(ev.vals[-1].a[0])))]
            if ev.short == "operator<<" and len(ev.args) == vi + 1 and (ev.name.startswith("std::") or cls.startswith("std::")):
                return [(self.write(st, *self.units(A, st, ev, vi)), self.out)]
            if ev.short == "put" and ev.vals: return [(self.write(st, uncast(ev.vals[0])), self.out)]
            if ev.short == "write" and len(ev.vals) == 2 and ev.vals[1].k == "c":
                cs = self.chars(A, st, ev.vals[0])
                if cs is not None: return [(self.write(st, *cs[:ev.vals[1].a[0]]), self.out)]
            if ev.name == "std::endl": return [(self.write(st, C(10)), self.out)]
            if ev.short in ("flush", "register_callback"): return [(st, self.out)]
            if ev.short in ("operator bool", "good"): return [(st, C(1))]
            if ev.short in ("fail", "bad", "operator!"): return [(st, C(0))]
        elif "stream" in cls or ev.short == "operator<<" and "stream<" in str(ev.ty):
            if ev.kind == "ctor": return [(st, lit(""))]
            if ops and ev.short == "operator<<" and st.store.get(ops[0]) is not None:
                cur = self.chars(A, st, st.store[ops[0]])
                if cur is not None:
                    s = st.copy(); s.store[ops[0]] = self.put_chars(cur + self.units(A, st, ev, len(ev.args) - 1))
                    return [(s, ops[0])]
        if ev.name == "std::for_each" and len(ev.args) == 3:
            i, j = self.strit(st, ev.args[0]), self.strit(st, ev.args[1])
            if i is not None and j is not None and i.a[0] is j.a[0]:
                cs = self.chars(A, st, i.a[0])[i.a[1]:j.a[1]]
                n = self.functor_of(A, ev, ev.args[2], ev.vals[2])
                for e, k in ESC.items():
                    if ("::" + e) in n:
                        return [(self.write(st, *[mk("esc", k, x) for x in cs]), ev.vals[2])]
                f = self.functor(A, ev, 2); states = [st]
                if f is None and ev.vals[2].k == "lam": f = A.P.fns.get(ev.vals[2].a[0])
                if f is None: raise Broken("for_each with %s" % n)
                for x in cs:
                    states = [o.st for s in states for o in A.invoke(s, ev, f, ev.args[2], [x]) if o.kind == "ret"]
                return [(s, ev.vals[2]) for s in states]
        if ev.short == "operator()" and len(ev.vals) == 1:
            n = ev.cls or ""
            for e, k in ESC.items():
                if ("::" + e) in n:
                    return [(self.write(st, mk("esc", k, uncast(ev.vals[0]))), mk("void"))]
        return super().on_call(A, st, ev)


# ---------------------------------------------------------------- reading what was written
class Bad(Exception):
    pass


NAMECHAR = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-.:")


class Reader:
    """a namespace-aware reader of well-formed content; the items are characters, escaped characters and unknown ones"""

    def __init__(self, toks):
        self.t = [chr(x.a[0]) if x.k == "c" else x for x in toks]; self.i = 0

    def at(self, s):
        return self.t[self.i:self.i + len(s)] == list(s)

    def take(self, s):
        if not self.at(s): raise Bad("%r expected" % s)
        self.i += len(s)

    def more(self):
        return self.i < len(self.t)

    def name(self):
        out = ""
        while self.more() and isinstance(self.t[self.i], str) and self.t[self.i] in NAMECHAR:
            out += self.t[self.i]; self.i += 1
        if not out or out[0] in "0123456789.-": raise Bad("a name expected")
        return out

    def until(self, s, what):
        out = []
        while not self.at(s):
            if not self.more(): raise Bad("%s is not ended" % what)
            x = self.t[self.i]
            if not isinstance(x, str) and x.k == "esc": raise Bad("escaping inside %s" % what)
            out.append(x); self.i += 1
        self.take(s)
        return tuple(out)

    def space(self, need=True):
        n = 0
        while self.more() and self.t[self.i] in (" ", "\n", "\t"): self.i += 1; n += 1
        if need and not n: raise Bad("white space expected")
        return n

    def plain(self, x, kind):
        """character data or part of an attribute value"""
        if isinstance(x, str):
            if x in "<&" or x == ">" and kind == "text" or x in '"\n\t\r' and kind == "attr": raise Bad("%r is not escaped" % x)
            return x
        if x.k == "esc":
            if x.a[0] != kind and not (kind == "text"): raise Bad("escaped as %s in %s" % (x.a[0], kind))
            y = x.a[1]
            return chr(y.a[0]) if y.k == "c" else y
        raise Bad("an unknown character is written as it is")

    def document(self):
        self.take('<?xml version='); q = self.t[self.i]
        if q not in ('"', "'"): raise Bad("a quote expected")
        self.i += 1; self.take("1.0" + q); self.space(False); self.take("?>"); self.space(False)
        return self.content({"xml": XMLURI}, None)

    def content(self, ns, end):
        out = []; buf = []

        def flush():
            if buf: out.append(("text", tuple(buf))); buf.clear()
        while True:
            if not self.more():
                if end is not None: raise Bad("<%s> is not ended" % end)
                flush(); return out
            x = self.t[self.i]
            if x == "<":
                if self.at("</"):
                    flush()
                    if end is None: raise Bad("an end-tag without its start-tag")
                    self.i += 2; n = self.name(); self.space(False); self.take(">")
                    if n != end: raise Bad("<%s> is ended by </%s>" % (end, n))
                    return out
                if self.at("<![CDATA["):
                    flush(); self.take("<![CDATA[")
                    cs = self.until("]]>", "a CDATA section")
                    if out and out[-1][0] == "cdata": out[-1] = ("cdata", out[-1][1] + cs)
                    else: out.append(("cdata", cs))
                elif self.at("<!--"):
                    flush(); self.take("<!--"); out.append(("comment", self.until("-->", "a comment")))
                elif self.at("<?"):
                    flush(); self.take("<?"); n = self.name()
                    if self.at("?>"): self.take("?>"); out.append(("pi", n, ()))
                    else:
                        self.space(); out.append(("pi", n, self.until("?>", "a processing instruction")))
                else:
                    flush(); self.i += 1; out.append(self.element(ns))
            elif x == "&":
                flush(); self.i += 1; n = self.name(); self.take(";"); out.append(("ref", n))
            else:
                buf.append(self.plain(x, "text")); self.i += 1

    def element(self, ns):
        q = self.name(); raw = []
        while True:
            n = self.space(False)
            if self.at("/>") or self.at(">"): break
            if not n: raise Bad("white space expected")
            a = self.name(); self.space(False); self.take("="); self.space(False)
            d = self.t[self.i]
            if d not in ('"', "'"): raise Bad("a quote expected")
            self.i += 1; v = []
            while self.more() and self.t[self.i] != d: v.append(self.plain(self.t[self.i], "attr")); self.i += 1
            self.take(d); raw.append((a, tuple(v)))
        if len({a for a, v in raw}) != len(raw): raise Bad("an attribute is written twice")
        ns = dict(ns)
        for a, v in raw:
            if a == "xmlns" or a.startswith("xmlns:"):
                if not all(isinstance(x, str) for x in v): raise Bad("the namespace declared is not known")
                p = a[6:]; u = "".join(v)
                if p and not u: raise Bad("xmlns:%s is declared empty" % p)
                if (p == "xml") != (u == XMLURI) or p == "xmlns" or u == XMLNS: raise Bad("%s may not be declared %s" % (a, u))
                ns[p] = u
        attrs = {}
        for a, v in raw:
            if a == "xmlns" or a.startswith("xmlns:"): continue
            e = self.expand(a, ns, False)
            if e in attrs: raise Bad("two attributes %s" % (e,))
            attrs[e] = v
        e = self.expand(q, ns, True)
        if self.at("/>"): self.take("/>"); return ("element", e, attrs, [])
        self.take(">")
        return ("element", e, attrs, self.content(ns, q))

    def expand(self, q, ns, element):
        p, _, l = q.rpartition(":")
        if not l or ":" in p: raise Bad("%s is not a qualified name" % q)
        if not p: return (ns.get("", "") if element else "", l)
        if p not in ns: raise Bad("the prefix of %s is not declared" % q)
        return (ns[p], l)


# ---------------------------------------------------------------- what should come back
def expected(spec):
    kind = spec[0]
    if kind == "e":
        e = split(spec[2])
        at = {split((ns, nm) if ns else nm): chars(v) for l, ns, nm, v in (spec[3] if len(spec) > 3 else ()) if ns != XMLNS}
        return ("element", e, at, several(spec[4] if len(spec) > 4 else ()))
    if kind == "t": return ("text", chars(spec[2]))
    if kind == "d": return ("cdata", chars(spec[2]))
    if kind == "c": return ("comment", chars(spec[2]))
    if kind == "p": return ("pi", spec[2], tuple("data"))
    if kind == "r": return ("ref", spec[2])
    raise Broken(kind)


def split(n):
    return (n[0], n[1].split(":")[-1]) if isinstance(n, tuple) else ("", n)


def chars(v):
    return tuple(v) if isinstance(v, str) else tuple(v.a)


def several(specs):
    out = []
    for s in specs:
        x = expected(s)
        if x[0] in ("text", "cdata") and out and out[-1][0] == x[0]: out[-1] = (x[0], out[-1][1] + x[1])
        elif x[0] == "text" and not x[1]: pass
        else: out.append(x)
    return out


def show(x):
    return repr(x).replace("Node(", "(")[:300]



NS = [None, ("u1", ""), ("u1", "p"), ("u1", "q"), ("u2", ""), ("u2", "p"), ("u2", "q")]


def canonical(xs):
    """p before q: what only compares prefixes cannot tell them apart"""
    for x in xs:
        if x is not None and x[1] in ("p", "q"): return x[1] == "p"
    return True


def el(label, n, attrs=(), kids=(), local=None):
    l = local or label
    return ("e", label, l if n is None else (n[0], (n[1] + ":" if n[1] else "") + l), list(attrs), list(kids))


def at(label, n, value="v", local=None):
    l = local or label.lstrip("@")
    return (label, None if n is None else n[0], l if n is None else (n[1] + ":" if n[1] else "") + l, value)


def brief(s):
    """a tree as text"""
    k = s[0]
    if k == "e":
        q = lambda n: "{%s}%s" % n if isinstance(n, tuple) else n
        return "<%s%s>%s" % (q(s[2]), "".join(" " + (("{%s}" % a[1] if a[1] is not None else "") + a[2]) for a in s[3]), "(" + ", ".join(brief(x) for x in s[4]) + ")" if s[4] else "")
    return {"t": "text", "d": "CDATA", "c": "comment", "p": "PI", "r": "&;"}[k] + ("" if not isinstance(s[2], str) else " %r" % s[2])


@guarded
def check():
    c = Check("C22", "proof", "every tree of the families below (elements and attributes with every combination of no namespace and two or three namespaces, with and without "
              "prefixes, nested, side by side and clashing; every kind and pair of content; every CDATA section of up to six of the characters that matter) is written on "
              "one path, and a namespace-aware reader written from the recommendations gets the same tree back")
    P = Program(["dom", "xpath"])
    run = [f for f in P.fns.values() if f.name == "Arabica::DOM::operator<<" and len(f.params) == 2]
    if len(run) != 1:
        raise Broken("the stream operator of nodes: %s" % [f.name for f in run])
    run = run[0]; where = run.loc
    W = XWorld(P, SMon())
    unknown = lambda *n: mk("seq", *[mk("numvar", "char%s" % x) for x in n])
    base_doc, base = W.new_document()
    out = mk("F", W.mon.out, "written")
    cases = [0]

    def written(st, nodes, what):
        """the items written for these nodes, one after the other into one stream"""
        for i, n in enumerate(nodes):
            px, st = W.proxy(st, n, "proxy%d" % i)
            outs = W.engine_run(run, None, [W.mon.out, px], st)
            bad = [k for k in W.A.opaque if k.startswith("Arabica::") and "~" not in k]
            if bad: raise Broken("%s is not analysed" % bad[0])
            if len(outs) != 1 or outs[0].kind != "ret":
                c.ob("%s: is written" % what, False, where, "; ".join(str(o.exc or o.kind) for o in outs)[:200])
                return None, None
            st = outs[0].st
        w = st.store.get(out)
        return (w.a if w is not None else ()), st

    def compare(what, toks, want, document=False):
        shown = "".join(chr(x.a[0]) if x.k == "c" else chr(x.a[1].a[0]) if x.k == "esc" and x.a[1].k == "c" else "?" for x in toks)
        try:
            r = Reader(toks)
            got = r.document() if document else r.content({"xml": XMLURI}, None)
        except (Bad, IndexError) as e:
            c.ob("%s: reads back as the same tree" % what, False, where, "%s; written: %s" % (e, shown[:200]))
            return
        c.ob("%s: reads back as the same tree" % what, same(got, want), where, "written: %s" % shown[:300])

    def same(a, b):
        if isinstance(a, list): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
        if a[0] != b[0]: return False
        if a[0] == "element": return a[1] == b[1] and a[2] == b[2] and same(a[3], b[3])
        return a == b

    def tree(job):
        """job: what, tree, labels of the nodes written (default: the whole)"""
        what, specs, labels = job
        made = {}
        st = W.plant(base, base_doc, None, ("f", "f", None, [], specs), made)
        if labels is None:
            toks, st = written(st, [made["f"]], what); want = several(specs)
        else:
            find = {}

            def walk(s):
                find[s[1]] = s
                for x in (s[4] if len(s) > 4 else ()): walk(x)
            for s in specs: walk(s)
            toks, st = written(st, [made[l] for l in labels], what); want = several([find[l] for l in labels])
        if toks is not None: compare(what, toks, want)

    def lone(job):
        """nodes without a parent"""
        what, spec = job; made = {}
        st = W.plant(base, base_doc, None, spec, made)
        toks, st = written(st, [made[spec[1]]], what)
        if toks is not None: compare(what, toks, several([spec]))

    def document(job):
        what, specs = job; made = {}
        st = base
        for s in specs: st = W.plant(st, base_doc, base_doc, s, made)
        toks, st = written(st, [base_doc], what)
        if toks is not None: compare(what, toks, several(specs), True)

    # ---- namespaces
    jobs = []

    def add(specs, labels=None):
        jobs.append(("%s%s" % (", ".join(brief(s) for s in specs), "" if labels is None else ", only %s" % "+".join(labels)), specs, labels))
    for a, x, y in itertools.product(NS, NS, NS):
        if canonical((a, x, y)):
            add([el("r", a, [at("@x", x), at("@y", y)])])
            if (x and x[0]) != (y and y[0]): add([el("r", a, [at("@x", x or ("", "")), at("@y", y or ("", ""), local="x")])])
    for a, b, d in itertools.product(NS, NS, NS):
        if canonical((a, b, d)):
            add([el("r", a, [], [el("k", b, [], [el("m", d)])])])
            add([el("r", a, [], [el("k", b), el("m", d)])])
            add([el("r", a, [at("@x", b)], [el("k", d)])], ["k"])
            add([el("r", a, [], [el("k", b, [], [el("m", d)])])], ["m", "r"])
    for a, x, b, y in itertools.product(NS, NS, NS, NS):
        if canonical((a, x, b, y)) and (x is None or y is None or a is None or b is None or (a[1], x[1], b[1], y[1]).count("") < 2):
            add([el("r", a, [at("@x", x)], [el("k", b, [at("@y", y)])])])
    GEN = [("u2", ""), ("u3", ""), ("u3", "a0"), ("u1", "a0"), ("u2", "a1")]
    for a, x, y in itertools.product([None, ("u1", "a0"), ("u1", "a1"), ("u1", ""), ("u3", "a0")], GEN, GEN):
        if x != y: add([el("r", a, [at("@x", x), at("@y", y)])])
        add([el("r", a, [at("@x", x)], [el("k", ("u1", "a0"), [at("@y", y)], [el("m", ("u2", "a0"))])])])
        add([el("r", a, [], [el("k", None, [at("@y", y), at("@x", x, local="z")])])])
    D = lambda p, u: ("@" + p, XMLNS, "xmlns" + (":" + p if p else ""), u)
    for a, x, u in itertools.product(NS, NS[1:], ("u1", "u2")):
        for p in ("", "p"):
            add([el("r", a, [D(p, u), at("@x", x)], [el("k", x)])])
    for a in NS:
        add([el("r", a, [("@l", XMLURI, "xml:lang", "en")], [el("k", a, [("@m", XMLURI, "xml:space", "preserve")])])])
    c.spread(jobs, tree, W); cases[0] += len(jobs)

    # ---- content
    jobs = []
    KIND = [("t", "ab"), ("t", unknown(1, 2)), ("t", ""), ("d", unknown(3)), ("d", ""), ("c", unknown(4, 5)), ("c", ""), ("p", "target"), ("r", "name"), ("e", None)]

    def make(k, v, l):
        return el(l, None, [at("@a", None, unknown(6, 7))]) if k == "e" else (k, l, v)
    for i, (k, v) in enumerate(KIND):
        add([el("r", None, [], [make(k, v, "k")])]); add([make(k, v, "k")])
        add([make(k, v, "k")], ["k", "k"])
        for j, (k2, v2) in enumerate(KIND):
            add([el("r", ("u1", "p"), [], [make(k, v, "k"), make(k2, v2, "l")])])
            add([el("r", None, [], [el("m", None, [], [make(k, v, "k")]), make(k2, v2, "l")])])
    for v in ("", "a", unknown(1), unknown(1, 2, 3)):
        add([el("r", None, [at("@x", None, v), at("@y", ("u1", "p"), v)])])
    for n in range(7):
        for x in itertools.product("]>x", repeat=n):
            v = "".join(x)
            if n < 5 or "]]>" in v: add([el("r", None, [], [("d", "k", v)])])
    for v in ("a]]>b]]>c", "]]>]]>]]>", "ab]]>", "]]]]>>]]>", "x]]>yy]]>zzz]]>", "]]>]]]>]]]]>", "ab]]>cd]]>ef", "]]x]]>]>]]>>"):
        add([el("r", None, [], [("d", "k", v)])])
    c.spread(jobs, tree, W); cases[0] += len(jobs)

    # ---- nodes in no tree, and documents
    jobs = [("%s, alone" % brief(s), s) for s in [el("r", n, [at("@x", m)]) for n in NS for m in (None, ("u1", ""), ("u2", "p"))] +
            [el("r", None, [], [("t", "k", "ab")]), ("t", "k", "ab"), ("d", "k", "ab"), ("c", "k", "ab"), ("p", "k", "target"), ("r", "k", "name")]]
    c.spread(jobs, lone, W); cases[0] += len(jobs)
    R = el("r", ("u1", "p"), [at("@x", None)], [("t", "t", "ab"), el("k", None)])
    jobs = [("document of %s" % ", ".join(brief(s) for s in d), d) for d in ([R], [("c", "c", "ab"), R], [R, ("p", "p", "target")], [("p", "p", "target"), ("c", "c", unknown(1)), R, ("c", "d", "")], [])]
    c.spread(jobs, document, W); cases[0] += len(jobs)
    c.floor("trees written", cases[0], 2500)
    c.stat("trees", cases[0]); c.stat("runs", W.runs); c.stat("paths", W.paths)
    return c.finish()
