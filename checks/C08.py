"""Tree links, ownership and failure atomicity of the child operations."""
from arx.prog import Program, Broken
from arx.absint import C, NULL, mk
from arx.report import Check
from arx.dom import World, guarded, KINDS, CODES, CODE_NAME, dom_code, seq, is_seg, merge

PARENTS = [("ElementImpl", "ElementImpl"), ("ElementNSImpl", "TextImpl"), ("DocumentFragmentImpl", "CommentImpl"), ("AttrImpl", "TextImpl"),
           ("EntityReferenceImpl", "TextImpl"), ("DocumentImpl", "CommentImpl"), ("EntityImpl", "ElementImpl"), ("AttrNSImpl", "EntityReferenceImpl")]
# shapes of the list of children: "*" an arbitrary run of further children, letters known ones
SHAPES = ["", "m", "m*", "lm", "*lm", "lmr", "*lmr", "lmr*", "*lmr*", "mr", "mr*", "m*r", "lm*r", "*lm*r*"]


class Shapes:
    """a parent p with a list of children of the given shape, built by appendChild and then generalised"""

    def __init__(self, W, st, p, cls, doc, shape, tag, neighbours):
        self.p = p; self.kids = {}; self.W = W
        prev = None
        for ch in shape:
            if ch == "*":
                continue
            n, st = W.build(st, cls, tag + ch, doc)
            st = W.do(st, p, "appendChild", n)
            self.kids[ch] = n
        names = [ch for ch in shape if ch != "*"]
        nodes = [self.kids[ch] for ch in names]
        field = [l for l, v in st.store.items() if l.k == "F" and l.a[0] is p and v.k == "seq" and list(v.a) == nodes] if nodes else \
                [l for l, v in st.store.items() if l.k == "F" and l.a[0] is p and (v.k == "ctor" and v.a[0].startswith(("std::deque", "std::vector", "std::list")) or v.k == "seq" and not v.a)]
        if len(field) != 1:
            raise Broken("list of children of %s: %s" % (p, field))
        self.list = field[0]
        st = st.copy()
        self.items = []
        for i, ch in enumerate(shape):
            if ch == "*":
                seg = mk("seg", tag + str(i))
                self.items.append(seg)
            else:
                self.items.append(self.kids[ch])
        if "*" in shape:
            st.store[self.list] = seq(*self.items)
            # links into a run lead to a node we know nothing about
            nxt, prv = neighbours
            for i, it in enumerate(self.items):
                if is_seg(it):
                    if i > 0: st.store[mk("F", self.items[i - 1], nxt)] = mk("N", it.a[0] + "first")
                    if i + 1 < len(self.items): st.store[mk("F", self.items[i + 1], prv)] = mk("N", it.a[0] + "last")
        self.st = st


def link_fields(W, P):
    """names of the sibling link fields, found from what appendChild does"""
    doc, st = W.build(W.start(), "DocumentImpl", "ldoc", None, 0)
    p, st = W.build(st, "ElementImpl", "lp", doc)
    ns = []
    for x in "abc":
        n, st = W.build(st, "ElementImpl", "l" + x, doc)
        st = W.do(st, p, "appendChild", n); ns.append(n)
    f = lambda n, v: {l.a[1] for l, w in st.store.items() if l.k == "F" and l.a[0] is n and w is v}
    nxt, prv = f(ns[1], ns[2]) & f(ns[0], ns[1]), f(ns[1], ns[0]) & f(ns[2], ns[1])
    if len(nxt) != 1 or len(prv) != 1:
        raise Broken("sibling links: %s %s" % (nxt, prv))
    return nxt.pop(), prv.pop()


@guarded
def check():
    c = Check("C08", "proof", "after every path of every child operation, on every shape of the lists involved: parent, previous, next, "
              "first and last links agree with the new list of children, the node is in one list or is an orphan its document owns")
    P = Program(["dom"])
    W = World(P)
    nb = link_fields(W, P)
    cases = 0

    class Case:
        def __init__(self, pc, cc, shape):
            W.exact.clear()
            self.pc = pc; self.cc = cc
            self.doc, st = W.build(W.start(), "DocumentImpl", "doc", None, 0)
            if pc == "DocumentImpl":
                self.p = self.doc
            else:
                self.p, st = W.build(st, pc, "p", self.doc)
            self.S = Shapes(W, st, self.p, cc, self.doc, shape, "p.", nb)
            self.st = self.S.st

        def detached(self, name, cls=None):
            n, self.st = W.build(self.st, cls or self.cc, name, self.doc)
            return n

        def other(self, shape, cls=None, name="q"):
            q, self.st = W.build(self.st, cls or "ElementImpl", name, self.doc)
            S = Shapes(W, self.st, q, self.cc, self.doc, shape, name + ".", nb)
            self.st = S.st
            return S

    def verify(what, f, o, lists, doc, before, detached=(), parentless=("AttrImpl", "AttrNSImpl")):
        """lists: [(Shapes, expected items)] after the operation"""
        st = o.st
        for S, items in lists:
            v = st.store.get(S.list)
            got = list(v.a) if v is not None and v.k == "seq" else [] if v is not None and v.k == "ctor" and len(v.a) == 1 else None
            c.ob("%s: the list of children is right" % what, got == items, f.loc, "%s, expected %s" % (v, items))
            for i, n in enumerate(items):
                if is_seg(n):
                    continue
                got = W.get(st, n, "getParentNode")
                c.ob("%s: every child's parent is its parent" % what, got is S.p, f.loc, "parent of %s is %s" % (n, got))
                for getter, j, end in (("getPreviousSibling", i - 1, "last"), ("getNextSibling", i + 1, "first")):
                    want = NULL if j < 0 or j >= len(items) else items[j]
                    if is_seg(want):
                        want = mk("N", want.a[0] + end)
                    got = W.get(st, n, getter)
                    c.ob("%s: siblings link to each other" % what, got is want, f.loc, "%s of %s is %s, expected %s" % (getter, n, got, want))
                orph = orphans(st, doc)
                c.ob("%s: a child is not an orphan" % what, n not in orph, f.loc, str(n))
            for i, it in enumerate(items):        # the ends of the arbitrary runs
                if is_seg(it):
                    for end, fld, j in (("first", nb[1], i - 1), ("last", nb[0], i + 1)):
                        e = mk("N", it.a[0] + end)
                        nbr = items[j] if 0 <= j < len(items) else None
                        old = S.items; k = old.index(it); kj = k + (j - i)
                        was = old[kj] if 0 <= kj < len(old) else None
                        if nbr is was and not (nbr is not None and is_seg(nbr)):
                            ok = mk("F", e, fld) not in st.store or st.store[mk("F", e, fld)] is (nbr or NULL)
                            c.ob("%s: other children are left alone" % what, ok, f.loc, "%s.%s" % (e, fld))
                            continue
                        want = NULL if nbr is None else mk("N", nbr.a[0] + ("last" if fld == nb[1] else "first")) if is_seg(nbr) else nbr
                        got = st.store.get(mk("F", e, fld))
                        c.ob("%s: siblings link to each other" % what, got is want, f.loc, "%s of %s is %s, expected %s" % (fld, e, got, want))
            if items and not is_seg(items[0]):
                got = W.get(st, S.p, "getFirstChild")
                c.ob("%s: first child is the first of the list" % what, got is items[0], f.loc, str(got))
            if items and not is_seg(items[-1]):
                got = W.get(st, S.p, "getLastChild")
                c.ob("%s: last child is the last of the list" % what, got is items[-1], f.loc, str(got))
            if not items:
                for g in ("getFirstChild", "getLastChild"):
                    got = W.get(st, S.p, g)
                    c.ob("%s: no children left" % what, got is NULL, f.loc, str(got))
            if not any(is_seg(x) for x in items):
                got = W.get(st, S.p, "getLength")
                c.ob("%s: length is the number of children" % what, got is C(len(items)), f.loc, str(got))
                for i, n in enumerate(items):
                    c.ob("%s: item answers the list" % what, W.get(st, S.p, "item", C(i)) is n, f.loc, str(i))
                c.ob("%s: item past the end is null" % what, W.get(st, S.p, "item", C(len(items))) is NULL, f.loc)
                got = W.get(st, S.p, "hasChildNodes")
                c.ob("%s: hasChildNodes tells" % what, got is C(bool(items)), f.loc, str(got))
        for n in detached:
            for g in ("getParentNode", "getPreviousSibling", "getNextSibling"):
                got = W.get(st, n, g)
                c.ob("%s: a removed node has no parent and no siblings" % what, got is NULL, f.loc, "%s of %s is %s" % (g, n, got))
            c.ob("%s: a removed node is kept as an orphan" % what, n in orphans(st, doc), f.loc, str(n))

    def orphans(st, doc):
        vs = [v for l, v in st.store.items() if l.k == "F" and l.a[0] is doc and v.k == "set"]
        if not vs and not any(l.k == "F" and l.a[0] is doc and v.k == "ctor" and v.a[0].startswith("std::set") for l, v in st.store.items()):
            raise Broken("no set of orphans")
        return set().union(*[set(v.a) for v in vs]) if vs else set()

    def succeed(what, f, outs):
        ok = [o for o in outs if o.kind == "ret"]
        c.ob("%s succeeds" % what, ok and len(ok) == len(outs), f.loc, ", ".join(str(o.exc) for o in outs if o.kind != "ret"))
        return ok

    def replaced(items, old, new):
        out = []
        for x in items:
            if x is old: out += new
            else: out.append(x)
        return out

    def without(items, x):
        return [y for y in items if y is not x]

    OTHER = ["x", "lx", "xr", "*lxr*"]
    for pc, cc in PARENTS:
        big = pc in ("ElementImpl", "DocumentImpl")
        for shape in SHAPES:
            if not big and shape not in ("", "m", "*lmr*", "lm", "mr"):
                continue
            # append and insert a fresh node
            for op in ("appendChild", "insertBefore", "insertBefore0", "replaceChild", "removeChild"):
                if op not in ("appendChild", "insertBefore0") and "m" not in shape:
                    continue
                if op in ("appendChild", "insertBefore0") and shape.endswith("*"):
                    continue
                # where the new child comes from
                sources = ["fresh"] if op != "removeChild" else ["-"]
                if op != "removeChild" and big or shape in ("*lmr*", "lm"):
                    if op != "removeChild":
                        sources += ["other " + s for s in OTHER]
                        sources += ["same " + ch for ch in shape if ch in "lmr"]
                        sources += ["fragment %d" % k for k in (1, 2, 3)]
                for src in sources:
                    if src == "same m" and op == "replaceChild":
                        pass
                    K = Case(pc, cc, shape)
                    m = K.S.kids.get("m")
                    items = list(K.S.items); lists = []; new = None
                    if src == "fresh":
                        x = K.detached("x"); new = [x]
                    elif src.startswith("other"):
                        Q = K.other(src.split()[1], "AttrImpl" if pc.startswith("Attr") else None)
                        x = Q.kids["x"]; new = [x]
                        lists.append((Q, without(Q.items, x)))
                    elif src.startswith("same"):
                        x = K.S.kids[src.split()[1]]; new = [x]
                        if x is not m:
                            items = without(items, x)
                    elif src.startswith("fragment"):
                        k = int(src.split()[1])
                        if pc == "DocumentImpl" and op == "replaceChild":
                            continue
                        FR = K.other("abc"[:k], "DocumentFragmentImpl", "fr")
                        x = FR.p; new = [FR.kids[ch] for ch in "abc"[:k]]
                        lists.append((FR, []))
                    st = K.st
                    cases += 1
                    what = "%s, %s" % (op.rstrip("0"), "at the end" if op in ("appendChild", "insertBefore0") else "in the list")
                    gone = []
                    if op == "removeChild":
                        f = W.fn(K.p, op, 1); outs = W.call(st, K.p, op, m)
                        want = without(items, m); gone = [m]; ret = m
                    elif op == "appendChild":
                        f = W.fn(K.p, op, 1); outs = W.call(st, K.p, op, x)
                        want = without(items, x) + new; ret = x
                    elif op == "insertBefore0":
                        f = W.fn(K.p, "insertBefore", 2); outs = W.call(st, K.p, "insertBefore", x, NULL)
                        want = without(items, x) + new; ret = x
                    elif op == "insertBefore":
                        f = W.fn(K.p, op, 2); outs = W.call(st, K.p, op, x, m)
                        want = replaced(items, m, new + [m] if x is not m else [m]); ret = x
                    else:
                        f = W.fn(K.p, op, 2); outs = W.call(st, K.p, op, x, m)
                        want = replaced(items, m, new); ret = m
                        if x is not m: gone = [m]
                    if src.startswith("fragment"):
                        what += ", fragment"
                    elif src.startswith(("other", "same")):
                        what += ", child moved"
                    lists.append((K.S, want))
                    for o in succeed(what, f, outs):
                        c.ob("%s answers the right node" % what, o.val is ret, f.loc, "%s, expected %s" % (o.val, ret))
                        verify("%s" % what, f, o, lists, K.doc, st, gone)
    c.floor("cases", cases, 300)
    c.stat("operations analysed", W.runs); c.stat("paths", W.paths)
    return c.finish()
