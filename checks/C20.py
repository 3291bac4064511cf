"""XPath location paths: steps, node tests, predicates, composition."""
import itertools
from arx.prog import Program, Broken
from arx.absint import C, NULL, mk
from arx.report import Check
from arx.dom import Failed, guarded, merge
from arx.tree import lit
from arx.cont import seq
from arx.xp import XWorld, XPMon, NSX, NAN, value_object
from checks.C16 import Model, AXES, XMLNS

DOC = [("c", "c0", "cm"),
       ("e", "r", "r", [("@x", None, "x", "1"), ("@y", "urn:p", "p:y", "2"), ("@ns", XMLNS, "xmlns:p", "urn:p")], [
           ("t", "t1", "a"),
           ("e", "e1", "e", [("@z", None, "e", "3")], [("e", "g1", ("urn:p", "p:e")), ("e", "g2", "g"), ("e", "g3", "e", [], [("t", "t2", "b")]),
                                                      ("p", "p1", "pi"), ("p", "p2", "qi")]),
           ("c", "c1", "cm"),
           ("e", "e2", ("urn:p", "p:g"), [("@w", "urn:q", "q:e", "4")], [("e", "h1", "e"), ("d", "t3", "c"), ("e", "h2", "e")]),
           ("e", "e3", ("urn:q", "e"))]),
       ("p", "p3", "pi")]
ELEMENTS = {}           # label -> (namespace, local name)
ATTRIBUTES = {}
TARGETS = {}


def note(s):
    if s[0] == "e":
        ELEMENTS[s[1]] = (s[2][0], s[2][1].split(":")[-1]) if isinstance(s[2], tuple) else ("", s[2])
        for al, ns, nm, v in (s[3] if len(s) > 3 else ()):
            ATTRIBUTES[al] = (ns or "", nm.split(":")[-1])
        for ch in (s[4] if len(s) > 4 else ()): note(ch)
    if s[0] == "p": TARGETS[s[1]] = s[2]


for s in DOC: note(s)
# test: (class, constructor arguments, label and kind -> whether it is met)
TESTS = {
    "node()": ("AnyNodeTest", (), lambda n, k: True),
    "*": ("StarNodeTest", (), lambda n, k: k in ("e", "ns")),
    "e": ("NameNodeTest", ("e",), lambda n, k: k == "e" and ELEMENTS[n] == ("", "e") or k == "ns" and n == "e"),
    "p": ("NameNodeTest", ("p",), lambda n, k: k == "ns" and n == "p"),
    "p:e": ("QNameNodeTest", ("urn:p", "e"), lambda n, k: k == "e" and ELEMENTS[n] == ("urn:p", "e")),
    "p:*": ("QStarNodeTest", ("urn:p",), lambda n, k: k == "e" and ELEMENTS[n][0] == "urn:p"),
    "text()": ("TextNodeTest", (), lambda n, k: k == "text"),
    "comment()": ("CommentNodeTest", (), lambda n, k: k == "c"),
    "processing-instruction()": ("ProcessingInstructionNodeTest", (), lambda n, k: k == "p"),
    "processing-instruction('pi')": ("ProcessingInstructionNodeTest", ("pi",), lambda n, k: k == "p" and TARGETS[n] == "pi"),
    "/": ("RootNodeTest", (), lambda n, k: k == "root"),
    "@*": ("AttributeNodeTest", (), lambda n, k: k == "attr"),
    "@e": ("AttributeNameNodeTest", ("e",), lambda n, k: k == "attr" and ATTRIBUTES[n] == ("", "e")),
    "@p:y": ("AttributeQNameNodeTest", ("urn:p", "y"), lambda n, k: k == "attr" and ATTRIBUTES[n] == ("urn:p", "y")),
    "@q:*": ("AttributeQStarNodeTest", ("urn:q",), lambda n, k: k == "attr" and ATTRIBUTES[n][0] == "urn:q"),
    "none": ("FailNodeTest", (), lambda n, k: False),
    "not attribute": ("NotAttributeNodeTest", (), lambda n, k: k != "attr"),
    "not root": ("NodeNodeTest", (), lambda n, k: k != "root"),
}
NAMES = ("node()", "*", "e", "p", "p:e", "p:*", "text()", "comment()", "processing-instruction()", "processing-instruction('pi')")


class PMon(XPMon):
    """operands computed from where they are asked"""
    fns = {}
    world = None

    def operand(self, A, st, ev):
        name = ev.recv.a[0]
        if name not in self.fns:
            return XPMon.operand(self, A, st, ev)
        kind, f = self.fns[name]
        if ev.short == "type": return [(st, C(self.kinds[kind]))]
        if ev.short != "evaluate": raise Broken("an operand is asked for " + ev.short)
        node = self.world.under(A, st, ev, ev.args[0]); env = ev.args[1]
        pos, last = (self.world.read(A, st, ev, env, x) for x in ("position", "last"))
        cur = self.world.under(A, st, ev, self.world.read(A, st, ev, env, "currentNode"))
        if pos.k != "c" or last.k != "c": raise Broken("position %s of %s" % (pos, last))
        st = st.copy(); st.mon = st.mon + (("asked at", name, node, pos.a[0], last.a[0], cur),)
        v = f(self.label.get(node, str(node)), pos.a[0], last.a[0])
        return value_object(A, st, ev, mk("T", ev.frame.fid, ev.node), self.answers[kind, v if v == v else "NaN"])


class PWorld(XWorld):
    def read(self, A, st, ev, obj, op):
        rec = A.exact.get(obj) or self.exact.get(obj)
        fs = [A.P.fns[m["id"]] for m in A.P.method(rec, op, 0) if m["id"] in A.P.fns]
        outs = A.invoke(st, ev, fs[0], obj, [])
        if len(outs) != 1: raise Broken(op)
        v = outs[0].val
        return A.load(st, v) if op in ("position", "last") and v.k in ("F", "L", "T") else v

    def under(self, A, st, ev, proxy):
        rec = self.record("Arabica::DOM::Node")
        f = [A.P.fns[m["id"]] for m in A.P.method(rec, "underlying_impl", 0) if m["id"] in A.P.fns][0]
        outs = A.invoke(st, ev, f, proxy, [])
        return outs[0].val


# predicates: label, position, last -> value
def truthy(v, pos):
    if isinstance(v, bool): return v
    if isinstance(v, float): return v == pos
    if isinstance(v, str): return v != ""
    return bool(v)


PREDICATES = {
    "[1]": ("NUMBER", lambda n, p, l: 1.0), "[2]": ("NUMBER", lambda n, p, l: 2.0), "[3]": ("NUMBER", lambda n, p, l: 3.0), "[0]": ("NUMBER", lambda n, p, l: 0.0),
    "[1.5]": ("NUMBER", lambda n, p, l: 1.5), "[-1]": ("NUMBER", lambda n, p, l: -1.0), "[NaN]": ("NUMBER", lambda n, p, l: NAN),
    "[last()]": ("NUMBER", lambda n, p, l: float(l)), "[position()]": ("NUMBER", lambda n, p, l: float(p)),
    "[last()-1]": ("NUMBER", lambda n, p, l: float(l - 1)),
    "[true()]": ("BOOL", lambda n, p, l: True), "[false()]": ("BOOL", lambda n, p, l: False),
    "[position() mod 2 = 1]": ("BOOL", lambda n, p, l: p % 2 == 1), "[position() > 1]": ("BOOL", lambda n, p, l: p > 1),
    "[position() != last()]": ("BOOL", lambda n, p, l: p != l),
    "['']": ("STRING", lambda n, p, l: ""), "['0']": ("STRING", lambda n, p, l: "0"),
    "[self::e]": ("NODE_SET", lambda n, p, l: ("r",) if ELEMENTS.get(n) == ("", "e") else ()),
}


@guarded
def check():
    c = Check("C20", "proof", "steps over every axis and node test from nodes of every kind, predicates of every type with the positions each node is asked at, "
              "and paths of several steps, compared with the nodes XPath 1.0 selects")
    P = Program(["dom", "xpath"])
    W = PWorld(P, PMon()); W.mon.world = W
    W.mon.kinds = W.types; W.mon.fns = {}; W.mon.answers = {}
    made = {}
    doc, st = W.new_document()
    for s in DOC: st = W.plant(st, doc, doc, s, made)
    made["doc"] = doc
    M = Model("doc", DOC)
    order = {}
    def number(n):
        order[n] = len(order)
        for a in M.attrs.get(n, ()): order[a] = len(order)
        for k in M.kids[n]: number(k)
    number("doc")
    inv = {v: k for k, v in made.items()}; W.mon.label = inv
    W.mon.addresses = lambda v: v.n
    proxies = {}
    for n in order:
        proxies[n], st = W.proxy(st, made[n], "proxy." + n)
    num = {a: C(P.enum_val(NSX + a)) for a in AXES}
    cur, st = W.proxy(st, made["c1"], "current")
    env, outs = W.obj(st, NSX + "ExecutionContext", "execution", pick=lambda f: not f.params)
    st = merge([o.st for o in outs if o.kind == "ret"])
    st = merge([o.st for o in W.call(st, env, "setCurrentNode", cur) if o.kind == "ret"])
    # the values predicates answer with
    for kind, v in [("NUMBER", x) for x in (NAN, -1.0, 0.0, 1.0, 1.5, 2.0, 3.0) + tuple(float(i) for i in range(4, 20))] + [("BOOL", True), ("BOOL", False),
                    ("STRING", ""), ("STRING", "0"), ("NODE_SET", ()), ("NODE_SET", ("r",))]:
        x = mk("f", v) if kind == "NUMBER" else C(v) if kind == "BOOL" else lit(v) if kind == "STRING" else [proxies[y] for y in v]
        impl, st = W.value(st, kind, "answer.%s.%s" % (kind, v), x)
        W.mon.answers[kind, v if v == v else "NaN"] = impl
    preds = {}
    for name, (kind, f) in PREDICATES.items():
        n = mk("N", "pred" + name); W.exact[n] = P.one_rec("arx_operand")["id"]
        W.mon.values["pred" + name] = (W.types[kind], None); W.mon.fns["pred" + name] = (kind, f)
        preds[name] = n
    tests = {}
    for name, (cls, args, f) in TESTS.items():
        n, outs = W.obj(st, NSX + "impl::" + cls, "test." + name, *[lit(a) for a in args], pick=lambda f: len(f.params) == len(args) and not any(cls + "<" in p["ty"] for p in f.params))
        ok = [o for o in outs if o.kind == "ret"]
        if len(ok) != 1: raise Broken("constructor of %s" % cls)
        tests[name] = n; st = ok[0].st
    wstep = P.one_rec(NSX + "impl::TestStepExpression").get("loc", "")
    wpath = P.one_rec(NSX + "impl::RelativeLocationPath").get("loc", "")
    cases = 0

    def one(outs, what, where):
        ok = [o for o in outs if o.kind == "ret"]
        if len(outs) != 1 or not ok:
            raise Failed(what, where, "; ".join(str(o.exc or o.kind) for o in outs)[:300] or "no outcome")
        return ok[0]

    def box(st, name, xs):
        n = mk("N", name); s = st.copy(); s.store[n] = seq(*xs)
        return n, s

    def step(st, name, axis, test, ps=()):
        """a step object"""
        if ps:
            v, st = box(st, name + ".preds", [preds[p] for p in ps])
            args = (num[axis], tests[test], v)
            pick = lambda f: len(f.params) == 3 and "vector" in f.params[2]["ty"]
        else:
            args = (num[axis], tests[test]); pick = lambda f: len(f.params) == 2
        n, outs = W.obj(st, NSX + "impl::TestStepExpression", name, *args, pick=pick)
        return n, one(outs, "a step can be made", wstep).st

    def path(st, name, steps, cls="RelativeLocationPath"):
        v, st = box(st, name + ".steps", steps)
        n, outs = W.obj(st, NSX + "impl::" + cls, name, v, pick=lambda f: len(f.params) == 1 and ("StepList" in f.params[0]["ty"] or "deque" in f.params[0]["ty"] or "vector" in f.params[0]["ty"] or "list<" in f.params[0]["ty"]))
        return n, one(outs, "a path can be made", wpath).st

    def nodes(st, v, what, where):
        W.exact.setdefault(v, W.record(NSX + "XPathValue"))
        t = W.get(st, v, "type")
        if t is not C(W.types["NODE_SET"]): raise Failed(what + " is a node-set", where, str(t))
        o = one(W.call(st, v, "asNodeSet"), what, where)
        ns = o.val; W.exact.setdefault(ns, W.record(NSX + "NodeSet"))
        out = []
        for i in range(W.get(o.st, ns, "size").a[0]):
            q = one(W.call(o.st, ns, "operator[]", C(i)), what, where)
            W.exact.setdefault(q.val, W.record("Arabica::DOM::Node"))
            x = W.get(q.st, q.val, "underlying_impl")
            out.append(inv.get(x) or "ns:%s" % W.text(q.st, x, "getNodeName").a[0])
        return out

    def evaluate(st, e, ctx, what, where):
        fs = [f for f in W.all_methods(e, "evaluate", 2) if "DOM::Node<" in f.params[0]["ty"]]
        if len(fs) != 1: raise Broken("evaluate of %s" % e)
        return one(W.engine_run(fs[0], e, [ctx, env], st), what + " has a value", where)

    def all_methods(e, op, n):
        """functions the name resolves to in the object's class and its bases, overridden ones left out"""
        out = []; seen = set()
        for r in P.bases(W.exact[e]):
            for m in P.methods(r):
                f = P.fns.get(m["id"])
                if f is not None and f.name.split("::")[-1] == op and len(f.params) == n:
                    key = tuple(p["ty"] for p in f.params)
                    if key not in seen:
                        seen.add(key); out.append(f)
        return out
    W.all_methods = all_methods

    def selected(ctx, axis, test, ps=()):
        """(nodes in axis order, what each predicate is asked) of one step"""
        k = lambda n: M.kind.get(n, "ns")
        if axis == "NAMESPACE":
            ns = ["ns:" + p for p in M.namespaces(ctx)]
            got = [n for n in ns if TESTS[test][2](n[3:], "ns")]
        else:
            got = [n for n in M.axis(ctx, axis) if TESTS[test][2](n, k(n))]
        asked = []
        for p in ps:
            kind, f = PREDICATES[p]; keep = []
            for i, n in enumerate(got, 1):
                asked.append((p, n, i, len(got)))
                if truthy(f(n, i, len(got)), i): keep.append(n)
            got = keep
        return got, asked

    def through(ctxs, *step):
        out = []
        for x in sorted(ctxs, key=order.get):
            for n in selected(x, *step)[0]:
                if n not in out: out.append(n)
        return out

    def log(o):
        return [(m[1][4:], inv.get(m[2], str(m[2])), m[3], m[4]) for m in o.st.mon if m[0] == "asked at"], {m[5] for m in o.st.mon if m[0] == "asked at"}

    def compare(what, got, want, where):
        c.ob("%s: selects exactly its nodes" % what, sorted(got) == sorted(want), where, "%s, expected %s" % (got, want))

    # one step, no predicates
    CONTEXTS = ("doc", "r", "e1", "g3", "h2", "t3", "c1", "p3", "@z", "@y")
    jobs = [(x, a, t) for x in CONTEXTS for a in AXES for t in NAMES]
    jobs += [(x, a, t) for x in ("doc", "r", "e2", "@z") for a in ("SELF", "ATTRIBUTE", "PARENT") for t in TESTS if t not in NAMES]

    def plain(j):
        x, a, t = j
        what = "%s::%s from %s" % (a.lower().replace("_", "-"), t, x)
        e, s = step(st, "step", a, t)
        o = evaluate(s, e, proxies[x], what, wstep)
        compare(what, nodes(o.st, o.val, what, wstep), selected(x, a, t)[0], wstep)
    c.spread(jobs, plain, W); cases += len(jobs)

    # predicates
    PAIRS = [("[position() > 1]", "[1]"), ("[2]", "[1]"), ("[1]", "[2]"), ("[position() mod 2 = 1]", "[last()]"), ("[self::e]", "[2]"), ("[self::e]", "[last()]"),
             ("[position() != last()]", "[position() > 1]", "[1]"), ("[false()]", "[1]"), ("['0']", "[last()-1]"), ("[true()]", "[position() mod 2 = 1]", "[position() > 1]")]
    jobs = [(x, a, t, (p,)) for x, a, t in (("e1", "CHILD", "node()"), ("h2", "PRECEDING", "*"), ("g3", "ANCESTOR", "node()"), ("r", "ATTRIBUTE", "@*")) for p in PREDICATES]
    jobs += [(x, a, t, ps) for x, a, t in (("e1", "CHILD", "node()"), ("h2", "PRECEDING", "node()"), ("g3", "ANCESTOR_OR_SELF", "node()"), ("g1", "FOLLOWING", "node()"),
                                           ("h2", "PRECEDING_SIBLING", "node()"), ("doc", "DESCENDANT", "*")) for ps in PAIRS]

    def filtered(j):
        x, a, t, ps = j
        what = "%s::%s%s from %s" % (a.lower().replace("_", "-"), t, "".join(ps), x)
        e, s = step(st, "step", a, t, ps)
        o = evaluate(s, e, proxies[x], what, wstep)
        want, asked = selected(x, a, t, ps)
        compare(what, nodes(o.st, o.val, what, wstep), want, wstep)
        got, current = log(o)
        if a != "ATTRIBUTE":
            c.ob("%s: every predicate is asked at each node with its position and size" % what, got == asked, wstep, "%s, expected %s" % (got, asked))
        c.ob("%s: predicates see the current node of the whole expression" % what, current <= {made["c1"]}, wstep, str(current))
    c.spread(jobs, filtered, W); cases += len(jobs)

    # paths
    CH = ("CHILD", "*"); N = ("CHILD", "node()"); UP = ("PARENT", "node()"); DS = ("DESCENDANT_OR_SELF", "node()"); AT = ("ATTRIBUTE", "@*"); ANC = ("ANCESTOR", "*")
    PATHS = [(CH,), (CH, CH), (DS, CH), (DS, N), (N, UP), (CH, CH, UP), (DS, ANC), (("DESCENDANT", "e"), ("PRECEDING", "e")), (DS, AT, UP), (CH, ("FOLLOWING_SIBLING", "node()")),
             (DS, ("CHILD", "e", ("[1]",))), (DS, ("CHILD", "node()", ("[last()]",))), (CH, ("CHILD", "*", ("[2]",)), UP), (DS, ("ANCESTOR", "*", ("[1]",))),
             (DS, ("PRECEDING_SIBLING", "node()", ("[1]",))), (DS, ("SELF", "none"), CH), (ANC, CH), (ANC, ("CHILD", "e", ("[position() > 1]",)), ("FOLLOWING", "node()")),
             (("SELF", "e"),), (DS, ("SELF", "text()")), (UP, UP, ("CHILD", "comment()")), (DS, ("CHILD", "*", ("[self::e]", "[2]")), ("PRECEDING", "text()"))]
    jobs = [(x, p, "RelativeLocationPath") for x in ("r", "e1", "g3", "@z", "t3") for p in PATHS]
    jobs += [(x, p, "AbsoluteLocationPath") for x in ("g3", "doc", "@z", "c0") for p in ((CH,), (CH, CH, UP), (("SELF", "e"),), (CH, AT))] + [("h2", (DS, ("CHILD", "e", ("[1]",))), "AbsoluteLocationPath")]

    def walk(j):
        x, p, cls = j
        what = "%s%s from %s" % ("/" if cls[0] == "A" else "", "/".join("%s::%s%s" % (s[0].lower().replace("_", "-"), s[1], "".join(s[2]) if len(s) > 2 else "") for s in p), x)
        s = st; es = []
        for i, q in enumerate(p):
            e, s = step(s, "step%d" % i, *q); es.append(e)
        e, s = path(s, "path", es, cls)
        o = evaluate(s, e, proxies[x], what, wpath)
        want = ["doc" if cls[0] == "A" else x]
        for q in p: want = through(want, *q)
        got = nodes(o.st, o.val, what, wpath)
        compare(what, got, want, wpath)
        c.ob("%s: in document order or its reverse" % what, got in (sorted(got, key=order.get), sorted(got, key=order.get)[::-1]), wpath, str(got))
    c.spread(jobs, walk, W); cases += len(jobs)

    # filter expressions: positions count in document order
    wexpr = P.one_rec(NSX + "impl::ExprStepExpression").get("loc", "")
    SETS = [["e3", "e1", "r"], ["@x", "doc", "h2", "e1", "t1"], ["e1", "e1", "e3", "e1"], [], ["h1"]]
    FPRED = [("[1]",), ("[2]",), ("[last()]",), ("[position() > 1]",), ("[self::e]", "[1]"), ("[position() > 1]", "[position() > 1]", "[1]"), ("[false()]",), ("['0']", "[2]")]

    def operand_step(st, x, kind, ps):
        base, s = W.operand(st, "base", kind, x)
        v, s = box(s, "filter.preds", [preds[p] for p in ps])
        n, outs = W.obj(s, NSX + "impl::ExprStepExpression", "filter", base, v)
        return n, one(outs, "a filter can be made", wexpr).st
    jobs = [(labs, ps) for labs in SETS for ps in FPRED]

    def filters(j):
        labs, ps = j
        what = "({%s})%s" % (", ".join(labs), "".join(ps))
        e, s = operand_step(st, [proxies[x] for x in labs], "NODE_SET", ps)
        o = evaluate(s, e, proxies["g2"], what, wexpr)
        want = sorted(set(labs), key=order.get); asked = []
        for p in ps:
            keep = []
            for i, n in enumerate(want, 1):
                asked.append((p, n, i, len(want)))
                if truthy(PREDICATES[p][1](n, i, len(want)), i): keep.append(n)
            want = keep
        compare(what, nodes(o.st, o.val, what, wexpr), want, wexpr)
        got, current = log(o)
        c.ob("%s: every predicate is asked at each node with its position in document order" % what, got == asked, wexpr, "%s, expected %s" % (got, asked))
        # and as the first step of a path
        e2, s2 = step(s, "next", "CHILD", "node()")
        e3, s2 = path(s2, "path", [e, e2])
        o = evaluate(s2, e3, proxies["g2"], what + "/node()", wexpr)
        compare(what + "/node()", nodes(o.st, o.val, what, wexpr), through(want, "CHILD", "node()"), wexpr)
    c.spread(jobs, filters, W); cases += len(jobs)
    # the same on node-sets which a path collected against document order
    def backwards(j):
        x, a, t, ps = j
        what = "(%s::%s)%s from %s" % (a.lower().replace("_", "-"), t, "".join(ps), x)
        e, s = step(st, "step", a, t)
        e, s = path(s, "path", [e])
        v, s = box(s, "filter.preds", [preds[p] for p in ps])
        n, outs = W.obj(s, NSX + "impl::ExprStepExpression", "filter", e, v)
        o = evaluate(one(outs, "a filter can be made", wexpr).st, n, proxies[x], what, wexpr)
        want = sorted(selected(x, a, t)[0], key=order.get)
        for p in ps: want = [n for i, n in enumerate(want, 1) if truthy(PREDICATES[p][1](n, i, len(want)), i)]
        compare(what, nodes(o.st, o.val, what, wexpr), want, wexpr)
    jobs = [(x, a, t, ps) for x, a, t in (("h2", "PRECEDING", "*"), ("g3", "ANCESTOR", "*"), ("c1", "PRECEDING_SIBLING", "node()"), ("e1", "DESCENDANT", "*")) for ps in FPRED]
    c.spread(jobs, backwards, W); cases += len(jobs)
    for kind, x in (("NUMBER", mk("f", 3.0)), ("STRING", lit("s")), ("BOOL", C(1))):
        e, s = operand_step(st, x, kind, ())
        o = evaluate(s, e, proxies["g2"], "an expression in brackets", wexpr)
        W.exact.setdefault(o.val, W.record(NSX + "XPathValue"))
        c.ob("an expression of type %s without predicates keeps its value" % kind, W.get(o.st, o.val, "type") is C(W.types[kind]), wexpr)
        cases += 1
    c.floor("cases", cases, 900)
    c.stat("cases", cases); c.stat("runs", W.runs); c.stat("paths", W.paths)
    return c.finish()
