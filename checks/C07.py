"""Which nodes may become children of which."""
from arx.prog import Program, Broken
from arx.absint import C, NULL, mk
from arx.report import Check
from arx.dom import World, guarded, KINDS, TYPE_NAMES, CODES, CODE_NAME, dom_code

CONTENT = {1, 3, 4, 5, 7, 8}
ALLOWED = {"ElementImpl": CONTENT, "ElementNSImpl": CONTENT, "DocumentFragmentImpl": CONTENT, "EntityImpl": CONTENT, "EntityReferenceImpl": CONTENT,
           "AttrImpl": {3, 5}, "AttrNSImpl": {3, 5}, "DocumentImpl": {1, 7, 8, 10}}
HIER, WRONG, NF = CODES["HIERARCHY_REQUEST_ERR"], CODES["WRONG_DOCUMENT_ERR"], CODES["NOT_FOUND_ERR"]


def make(W, st, cls, name, doc):
    return W.build(st, cls, name, None if cls == "DocumentTypeImpl" else doc, 0 if cls == "DocumentImpl" else None)


def verdict(outs):
    r = set()
    for o in outs:
        r.add("accepted" if o.kind == "ret" else CODE_NAME.get(dom_code(o.exc), str(o.exc)))
    return r


@guarded
def check():
    c = Check("C07", "proof", "outcome of every child operation for every parent class and child class, over all paths: accepted exactly "
              "when DOM allows the combination, refused with the DOM error code otherwise")
    P = Program(["dom"])
    W = World(P)
    for need in KINDS:
        if need not in W.classes:
            raise Broken("node class %s not found" % need)
    combos = 0

    def expect(key, f, outs, want):
        got = verdict(outs)
        ok = got == {"accepted"} if want is None else bool(got) and got <= {CODE_NAME[w] for w in want}
        c.ob(key, ok, f.loc, "outcome: %s" % ", ".join(sorted(got)))

    for pc in sorted(W.classes):
        allowed = ALLOWED.get(pc, set())
        W.exact.clear()
        doc, st0 = make(W, W.start(), "DocumentImpl", "doc", None)
        doc2, st0 = make(W, st0, "DocumentImpl", "doc2", None)
        if pc == "DocumentImpl":
            p, st = doc, st0
        else:
            p, st = make(W, st0, pc, "p", doc)
        # a child the parent can have, to insert before and to replace
        first = "TextImpl" if 3 in allowed else "CommentImpl"
        if allowed:
            m, st = make(W, st, first, "m", doc)
            st = W.do(st, p, "appendChild", m)
        else:
            m, st = make(W, st, "TextImpl", "m", doc)
        refused = {NF, CODES["NO_MODIFICATION_ALLOWED_ERR"]}
        who = TYPE_NAMES[KINDS[pc]] + (" (namespaced)" if "NS" in pc else "")
        for cc in sorted(W.classes):
            kind = KINDS[cc]
            x, s = make(W, st, cc, "x", doc)
            what = TYPE_NAMES[kind] + (" (namespaced)" if "NS" in cc else "")
            for op, args in (("appendChild", (x,)), ("insertBefore", (x, m)), ("insertBefore", (x, NULL)), ("replaceChild", (x, m))):
                combos += 1
                f = W.fn(p, op, len(args))
                outs = W.call(s, p, op, *args)
                opn = op + (" at the end" if args[-1] is NULL else "")
                if kind == 11:
                    continue                # a fragment stands for its children: below
                want = None if kind in allowed else ({HIER, WRONG} if kind == 9 else {HIER})
                if not allowed:
                    want = want | refused
                expect("%s: %s of %s" % (who, opn, what), f, outs, want)
            if kind in allowed and kind not in (10,):
                y, s = make(W, st, cc, "y", doc2)
                for op, args in (("appendChild", (y,)), ("insertBefore", (y, m)), ("replaceChild", (y, m))):
                    combos += 1
                    expect("%s: %s of %s from another document" % (who, op, what), W.fn(p, op, len(args)), W.call(s, p, op, *args), {WRONG})
        # fragments bring their children
        if True:
            for cc in sorted(W.classes):
                kind = KINDS[cc]
                if kind not in CONTENT or "NS" in cc:
                    continue
                fr, s = make(W, st, "DocumentFragmentImpl", "fr", doc)
                x, s = make(W, s, cc, "x", doc)
                s = W.do(s, fr, "appendChild", x)
                for op, args in (("appendChild", (fr,)), ("insertBefore", (fr, m)), ("replaceChild", (fr, m))):
                    if op == "replaceChild" and pc == "DocumentImpl":
                        continue
                    combos += 1
                    expect("%s: %s of a fragment with %s" % (who, op, TYPE_NAMES[kind]), W.fn(p, op, len(args)), W.call(s, p, op, *args),
                           None if kind in allowed else {HIER} if allowed else {HIER} | refused)
        # no cycles: an ancestor is not accepted below itself
        if 1 in allowed or pc in ("EntityReferenceImpl",):
            chain = [p]; s = st
            for i in range(3):
                e, s = make(W, s, "ElementImpl", "e%d" % i, doc)
                s = W.do(s, chain[-1], "appendChild", e)
                chain.append(e)
            for i, top in enumerate(chain):
                if top is p and pc != "ElementImpl":
                    continue
                for low in chain[i:]:
                    combos += 1
                    expect("element inside itself, %d levels down" % chain[i:].index(low), W.fn(low, "appendChild", 1),
                           W.call(s, low, "appendChild", top), {HIER})
                    t, s2 = make(W, s, "TextImpl", "t", doc)
                    s2 = W.do(s2, low, "appendChild", t)
                    for op in ("insertBefore", "replaceChild"):
                        combos += 1
                        expect("element inside itself by %s, %d levels down" % (op, chain[i:].index(low)), W.fn(low, op, 2),
                               W.call(s2, low, op, top, t), {HIER})
    # one document element, one document type
    W.exact.clear()
    doc, st = make(W, W.start(), "DocumentImpl", "doc", None)
    k, st = make(W, st, "CommentImpl", "k", doc)
    st = W.do(st, doc, "appendChild", k)
    for cls, getter in (("ElementImpl", "getDocumentElement"), ("DocumentTypeImpl", "getDoctype")):
        kind = TYPE_NAMES[KINDS[cls]]
        a, s0 = make(W, st, cls, "a", doc)
        b, s0 = make(W, s0, cls, "b", doc)
        z, s0 = make(W, s0, "CommentImpl", "z", doc)
        def same(what, outs, w):
            for o in outs:
                if o.kind == "ret":
                    v = W.get(o.st, doc, getter)
                    c.ob("%s: %s answers it" % (what, getter), v is w, W.fn(doc, getter, 0).loc, "%s instead of %s" % (v, w))
        c.ob("no %s in a new document" % kind, W.get(st, doc, getter) is NULL, W.fn(doc, getter, 0).loc)
        for op, args in (("appendChild", (a,)), ("insertBefore", (a, k)), ("replaceChild", (a, k))):
            f = W.fn(doc, op, len(args))
            outs = W.call(s0, doc, op, *args); combos += 1
            expect("first %s by %s" % (kind, op), f, outs, None)
            same("after %s of a %s" % (op, kind), outs, a)
            for o in outs:
                if o.kind != "ret":
                    continue
                s1 = o.st
                if op != "replaceChild":
                    for op2, args2 in (("appendChild", (b,)), ("insertBefore", (b, k)), ("insertBefore", (b, a)), ("replaceChild", (b, k))):
                        combos += 1
                        expect("second %s by %s" % (kind, op2), W.fn(doc, op2, len(args2)), W.call(s1, doc, op2, *args2), {HIER})
                outs2 = W.call(s1, doc, "replaceChild", b, a); combos += 1
                if cls == "ElementImpl":
                    expect("replace the document element by another", W.fn(doc, "replaceChild", 2), outs2, None)
                    same("after replacing the document element", outs2, b)
                    outs3 = W.call(s1, doc, "replaceChild", z, a); combos += 1
                    expect("replace the document element by a comment", W.fn(doc, "replaceChild", 2), outs3, None)
                    same("after replacing the document element by a comment", outs3, NULL)
                    outs4 = W.call(s1, doc, "removeChild", a); combos += 1
                    expect("remove the document element", W.fn(doc, "removeChild", 1), outs4, None)
                    same("after removing the document element", outs4, NULL)
                    for o4 in outs4 + outs3:
                        if o4.kind == "ret":
                            outs5 = W.call(o4.st, doc, "appendChild", b)
                            expect("a document without document element takes a new one", W.fn(doc, "appendChild", 1), outs5, None)
                            same("after appending a new document element", outs5, b)
                else:
                    expect("replace the document type", W.fn(doc, "replaceChild", 2), outs2, {HIER})
                    same("after replacing the document type", outs2, b)
                    expect("remove the document type", W.fn(doc, "removeChild", 1), W.call(s1, doc, "removeChild", a), {HIER})
    c.floor("combinations", combos, 500)
    c.stat("operations analysed", W.runs); c.stat("paths", W.paths)
    return c.finish()
