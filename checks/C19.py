"""XPath node-sets: document order, no duplicates, union, string-values."""
import itertools
from arx.prog import Program, Broken
from arx.absint import C, NULL, mk
from arx.report import Check
from arx.dom import Failed, guarded, merge
from arx.tree import lit
from arx.strs import strval, cat
from arx.xp import XWorld, XPMon, NSX

XMLNS = "http://www.w3.org/2000/xmlns/"
DOC = [("c", "c0", "cm"),
       ("e", "r", "r", [("@x", None, "x", "1"), ("@n", XMLNS, "xmlns:p", "urn:p"), ("@y", "urn:y", "y:y", "2")], [
           ("t", "t1", "a"), ("d", "d1", "b"),
           ("e", "e1", "e", [("@z", None, "z", "3")], [("t", "t2", "c"), ("p", "p1", "pi"), ("e", "e2", "f", [], [("t", "t3", "d")])]),
           ("e", "e3", "g"), ("t", "t4", "e")]),
       ("p", "p2", "pi")]
DOC2 = [("e", "s", "s", [("@w", None, "w", "4")], [("t", "u1", "f"), ("e", "s1", "h")])]
FRAG = ("f", "fr", None, [], [("e", "fe", "e", [("@fx", None, "x", "1")], [("t", "ft", "g")]), ("t", "ft2", "h")])
FRAG2 = ("f", "fs", None, [], [("t", "gt", "i"), ("e", "ge", "e")])
LOOSE = ("e", "lr", "r", [("@lx", None, "x", "1")], [("t", "lt", "j")])
LOOSE2 = ("e", "ms", "r", [], [("e", "me", "e")])


def order(spec, out, attrs):
    """labels in document order, attributes after their element"""
    out.append(spec[1])
    for al, ns, nm, v in (spec[3] if len(spec) > 3 else ()):
        if ns != XMLNS:
            out.append(al)
    for ch in (spec[4] if len(spec) > 4 else ()):
        order(ch, out, attrs)
    return out


@guarded
def check():
    c = Check("C19", "proof", "the relative order of every pair of nodes of two documents, two fragments and two loose trees, in both orders of their addresses, is one "
              "strict total order that agrees with document order; sets of several nodes in every arrangement, unions and string-values computed from it")
    P = Program(["dom", "xpath"])
    W = XWorld(P)
    made = {}
    doc, st = W.new_document()
    doc2, st = W.new_document("doc2", st)
    for s in DOC: st = W.plant(st, doc, doc, s, made)
    for s in DOC2: st = W.plant(st, doc2, doc2, s, made)
    for s in (FRAG, FRAG2, LOOSE, LOOSE2): st = W.plant(st, doc, None, s, made)
    made["doc"] = doc; made["doc2"] = doc2
    trees = {}
    for name, specs in (("doc", DOC), ("doc2", DOC2)):
        trees[name] = [name]
        for s in specs: order(s, trees[name], {})
    for s in (FRAG, FRAG2, LOOSE, LOOSE2):
        trees[s[1]] = order(s, [], {})
    tree = {n: t for t, ns in trees.items() for n in ns}
    rank = {n: i for ns in trees.values() for i, n in enumerate(ns)}
    labels = [n for ns in trees.values() for n in ns]
    proxies = {}
    for n in labels:
        proxies[n], st = W.proxy(st, made[n], "proxy." + n)
    # namespace nodes, as the axis hands them out
    AX = "Arabica::XPath::AxisEnumerator"; spaces = {}
    for el in ("r", "e1"):
        for take in ("", "'"):
            e, outs = W.obj(st, AX, "en.%s%s" % (el, take), proxies[el], C(P.enum_val("Arabica::XPath::NAMESPACE")))
            st = merge([o.st for o in outs if o.kind == "ret"]); W.exact[e] = W.record(AX)
            for _ in range(9):
                r = W.get(st, e, "operator*"); W.exact.setdefault(r, W.record("Arabica::DOM::Node"))
                v = W.get(st, r, "underlying_impl")
                if v is NULL: break
                lab = "%s#%s%s" % (el, W.text(st, v, "getNodeName").a[0], take)
                made[lab] = v; spaces[lab] = el
                proxies[lab], st = W.proxy(st, v, "proxy." + lab)
                st = merge([o.st for o in W.call(st, e, "operator++") if o.kind == "ret"])
    c.floor("namespace nodes", len(spaces), 6)
    inv = {v: k for k, v in made.items()}
    roots = {made[t]: i for i, t in enumerate(trees)}
    where = W.P.one_rec(NSX + "NodeSet").get("loc", "")
    cases = 0

    def one(outs, what):
        ok = [o for o in outs if o.kind == "ret"]
        if len(outs) != 1 or not ok:
            raise Failed(what, where, "; ".join(str(o.exc or o.kind) for o in outs)[:300] or "no outcome")
        return ok[0]

    def contents(st, ns, what):
        n = W.get(st, ns, "size")
        if n.k != "c": raise Broken("size of a node-set: %s" % n)
        out = []
        for i in range(n.a[0]):
            o = one(W.call(st, ns, "operator[]", C(i)), what)
            W.exact.setdefault(o.val, W.record("Arabica::DOM::Node"))
            v = W.get(o.st, o.val, "underlying_impl")
            out.append(inv.get(v, str(v)))
        return out

    def arranged(st, labs, op, forward=None, top=False):
        """the nodes of a set after op, its direction and its first node"""
        what = "%s of {%s}" % (op, ", ".join(labs))
        ns, st = W.nodeset(st, "set", [proxies[x] for x in labs])
        if forward is not None:
            fs = [g for g in (P.fns.get(m["id"]) for m in P.method(W.exact[ns], "forward", 1)) if g]
            st = one(W.engine_run(fs[0], ns, [C(forward)], st), what).st
        st = one(W.call(st, ns, op), what + " succeeds").st
        flags = [W.get(st, ns, n).a[0] for n in ("forward", "reverse")] if top else None
        first = None
        if top and labs:
            o = one(W.call(st, ns, "top"), "the first of a set")
            W.exact.setdefault(o.val, W.record("Arabica::DOM::Node"))
            first = inv.get(W.get(o.st, o.val, "underlying_impl"))
        return contents(st, ns, what), flags, first

    known = {}
    for direction in (1, -1):
        tail = "" if direction == 1 else " (addresses the other way round)"
        W.mon.addresses = lambda v: direction * roots.get(v, 50 + v.n)
        # every pair, both ways round; addresses matter between trees only
        before = dict(known)
        allof = labels + [s for s in spaces if "'" not in s]
        within = lambda x: tree.get(x, "doc")
        pairs = [(x, y) for x, y in itertools.combinations(allof, 2) if direction == 1 or within(x) != within(y)]

        def pair(ab):
            return arranged(st, list(ab), "to_document_order")[0], arranged(st, list(ab)[::-1], "to_document_order")[0]
        for (a, b), (x, y) in zip(pairs, c.spread(pairs, pair, W)):
            cases += 2
            what = "%s and %s: the order does not depend on the arrangement%s" % (a, b, tail)
            c.ob(what, x == y and sorted(x) == sorted([a, b]), where, "%s, %s" % (x, y))
            if not x or x[0] not in (a, b): continue
            before[a, b] = x[0] == a; before[b, a] = not before[a, b]
            if direction == 1 and within(a) == within(b): known[a, b] = before[a, b]; known[b, a] = before[b, a]
            if a in tree and b in tree and tree[a] == tree[b]:
                c.ob("%s and %s: document order%s" % (a, b, tail), before[a, b] == (rank[a] < rank[b]), where, str(x))
            elif a in tree and b in spaces and tree[a] == "doc":
                want = rank[a] <= rank[spaces[b]]
                c.ob("%s and %s: namespace nodes follow their element and precede its attributes%s" % (a, b, tail), before[a, b] == want, where, str(x))
        bad = [(x, y, z) for x, y, z in itertools.permutations(allof, 3) if before.get((x, y)) and before.get((y, z)) and not before.get((x, z))]
        c.ob("the order is transitive%s" % tail, not bad, where, str(bad[:3]))
        groups = {}
        for t, ns in trees.items():
            for u, ms in trees.items():
                if t != u:
                    c.ob("the nodes of %s and %s are not interleaved%s" % (t, u, tail), len({before.get((x, y)) for x in ns for y in ms}) == 1, where)

        def total(xs):
            import functools
            return sorted(dict.fromkeys(xs), key=functools.cmp_to_key(lambda p, q: -1 if before[p, q] else 1))
        # several nodes, with repetitions, in both directions
        sets = [["e2", "@x", "c0", "t4", "@z", "r"], ["r", "r", "r"], ["t1", "e1", "t1", "e1", "@y", "t1"], ["doc", "p2", "e3", "doc"],
                ["fe", "r", "gt", "lr", "s", "fr", "me", "fs"], ["e3"], [], ["r#p", "r#xml", "r#p", "r#xml"], ["e1#xml", "r#p", "@z", "e1", "@x", "r", "e1#xml"]]
        jobs = [(p, fwd, op) for labs in sets for p in (labs, labs[::-1], labs[1:] + labs[:1], labs[2:] + labs[:2]) for fwd in (0, 1) for op in ("to_document_order", "sort")]
        for (p, fwd, op), (x, f, t) in zip(jobs, c.spread(jobs, lambda j: arranged(st, j[0], j[2], j[1], j[2] == "sort"), W)):
            w = total(p); cases += 1
            if op == "to_document_order":
                c.ob("{%s}: document order without repetitions%s" % (", ".join(p), tail), x == w, where, "%s, expected %s" % (x, w))
                continue
            ww = w if fwd else w[::-1]
            c.ob("{%s}: %s order without repetitions%s" % (", ".join(p), "document" if fwd else "reverse document", tail), x == ww, where, "%s, expected %s" % (x, ww))
            c.ob("{%s}: a sorted set knows its direction%s" % (", ".join(p), tail), f == [fwd, 1 - fwd], where, str(f))
            if p:
                c.ob("{%s}: the first in document order%s" % (", ".join(p), tail), t == w[0], where, "%s, expected %s" % (t, w[0]))
        # namespace nodes of one element found twice are the same nodes
        twice = ["r#p", "r#xml", "r#p'", "r#xml'"]
        x, _, _ = arranged(st, twice, "to_document_order")
        c.ob("namespace nodes found twice are there once%s" % tail, sorted(l.rstrip("'") for l in x) == ["r#p", "r#xml"], where, str(x))

        # union
        ctx = proxies["r"]; env = mk("N", "execution"); W.exact[env] = W.record(NSX + "ExecutionContext")
        wu = W.P.one_rec(NSX + "impl::UnionExpression").get("loc", "")
        pairs = [([], []), (["r"], []), ([], ["e1", "c0"]), (["r"], ["r"]), (["e3", "c0"], ["e1", "c0", "@x"]), (["t4"], ["t1", "e1", "@z", "e2"]),
                 (["fe", "s"], ["r", "gt", "lr"]), (["r#p", "r#xml"], ["r#p'", "r#xml'"]), (["r#xml"], ["e1#xml", "@x", "@z"]), (["e1", "e1"], [])]
        def union(lr):
            l, r = lr
            what = "{%s} | {%s}" % (", ".join(l), ", ".join(r))
            lo, s1 = W.operand(st, "left", "NODE_SET", [proxies[x] for x in l]); ro, s1 = W.operand(s1, "right", "NODE_SET", [proxies[x] for x in r])
            u, s1 = W.expression(s1, "UnionExpression", "union", lo, ro)
            o = one(W.ask(s1, u, "evaluate", ctx, env), what + " has a value")
            W.exact.setdefault(o.val, W.record(NSX + "XPathValue"))
            t = W.get(o.st, o.val, "type")
            c.ob("%s is a node-set" % what, t == C(W.types["NODE_SET"]), wu)
            o = one(W.call(o.st, o.val, "asNodeSet"), what)
            ns = o.val; W.exact.setdefault(ns, W.record(NSX + "NodeSet"))
            x = contents(o.st, ns, what)
            canon = lambda y: y.rstrip("'")
            w = total([canon(y) for y in l + r])
            x = [canon(y) for y in x]
            c.ob("%s: every node once%s" % (what, tail), sorted(set(x)) == sorted(w), wu, "%s, expected %s" % (x, w))
            if l and r:
                c.ob("%s: in document order%s" % (what, tail), x == w, wu, "%s, expected %s" % (x, w))
        c.spread(pairs, union, W); cases += len(pairs)
        if direction == 1:
            for lk, rk in (("STRING", "NODE_SET"), ("NODE_SET", "STRING"), ("NUMBER", "NODE_SET"), ("NODE_SET", "BOOL"), ("STRING", "STRING")):
                val = {"STRING": lit("x"), "NUMBER": mk("f", 1.0), "BOOL": C(1), "NODE_SET": [proxies["r"]]}
                lo, s1 = W.operand(st, "left", lk, val[lk]); ro, s1 = W.operand(s1, "right", rk, val[rk])
                u, s1 = W.expression(s1, "UnionExpression", "union", lo, ro)
                outs = W.ask(s1, u, "evaluate", ctx, env)
                c.ob("a union of %s and %s is an error" % (lk, rk), outs and all(o.kind != "ret" for o in outs), wu, "")
                cases += 1

    # string-values
    W.mon.addresses = lambda v: roots.get(v, 50 + v.n)
    text = {}
    def gather(s):
        kind, label = s[0], s[1]
        if kind in "td": return s[2]
        if kind == "c": text[label] = s[2]; return ""
        if kind == "p": text[label] = "data"; return ""
        out = ""; kids = s[4] if len(s) > 4 else ()
        for i, ch in enumerate(kids):
            g = gather(ch)
            if ch[0] in "td":
                run = ""
                for x in kids[i:]:
                    if x[0] not in "td": break
                    run += x[2]
                text[ch[1]] = run
            out += g
        for al, ns, nm, v in (s[3] if len(s) > 3 else ()): text[al] = v
        text[label] = out
        return out
    text["doc"] = "".join(gather(s) for s in DOC); text["doc2"] = "".join(gather(s) for s in DOC2)
    for s in (FRAG, FRAG2, LOOSE, LOOSE2): gather(s)
    text.update({"r#xml": "http://www.w3.org/XML/1998/namespace", "r#p": "urn:p", "e1#p": "urn:p"})
    wv = W.P.one_rec(NSX + "NodeSetValue").get("loc", "")
    firsts = [([n], n) for n in text if n in proxies and n not in ("@n", "d1")] + [(["t4", "e1", "r"], "r"), (["e3", "@x", "e1"], "@x"), (["p2", "t2"], "t2")]
    def stringvalue(lf):
        labs, first = lf
        impl, s1 = W.value(st, "NODE_SET", "value", [proxies[x] for x in labs])
        o = one(W.call(s1, impl, "asString"), "the string-value of %s" % first)
        v = strval(W.loaded(o.st, o.val))
        c.ob("the string-value of {%s}" % ", ".join(labs), v == lit(text[first]), wv, "%s, expected %r" % (v, text[first]))
    c.spread(firsts, stringvalue, W); cases += len(firsts)
    # text adjacent to unknown text
    st2 = st; us = [mk("str", "s%d" % i) for i in range(3)]
    e, st2 = W.make(st2, doc, "createElement", lit("v"))
    for i, (op, u) in enumerate(zip(("createTextNode", "createCDATASection", "createTextNode"), us)):
        n, st2 = W.make(st2, doc, op, u); st2 = W.do(st2, e, "appendChild", n)
    px, st2 = W.proxy(st2, e, "proxy.v")
    impl, s1 = W.value(st2, "NODE_SET", "value", [px])
    outs = W.call(s1, impl, "asString")
    for o in outs:
        c.ob("the string-value of an element with unknown text", o.kind == "ret" and strval(W.loaded(o.st, o.val)) == cat(*us), wv, str(o.val))
    c.floor("cases", cases, 1000)
    c.stat("cases", cases); c.stat("nodes", len(labels) + len(spaces)); c.stat("runs", W.runs); c.stat("paths", W.paths)
    return c.finish()
