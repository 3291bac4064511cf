"""DOM vocabulary shared by checks, and an abstract model of library sequences."""
from .prog import Broken
from .absint import AbsInt, Monitor, mk, C, NULL, State, Exc, contains

NS = "Arabica::SimpleDOM::"
KINDS = {  # node class -> DOM node type number
    "ElementImpl": 1, "ElementNSImpl": 1, "AttrImpl": 2, "AttrNSImpl": 2, "TextImpl": 3, "CDATASectionImpl": 4,
    "EntityReferenceImpl": 5, "EntityImpl": 6, "ProcessingInstructionImpl": 7, "CommentImpl": 8, "DocumentImpl": 9,
    "DocumentTypeImpl": 10, "DocumentFragmentImpl": 11, "NotationImpl": 12,
}
TYPE_NAMES = {1: "element", 2: "attribute", 3: "text", 4: "CDATA section", 5: "entity reference", 6: "entity",
              7: "processing instruction", 8: "comment", 9: "document", 10: "document type", 11: "document fragment", 12: "notation"}
CODES = dict(INDEX_SIZE_ERR=1, DOMSTRING_SIZE_ERR=2, HIERARCHY_REQUEST_ERR=3, WRONG_DOCUMENT_ERR=4, INVALID_CHARACTER_ERR=5,
             NO_DATA_ALLOWED_ERR=6, NO_MODIFICATION_ALLOWED_ERR=7, NOT_FOUND_ERR=8, NOT_SUPPORTED_ERR=9, INUSE_ATTRIBUTE_ERR=10,
             INVALID_STATE_ERR=11, SYNTAX_ERR=12, INVALID_MODIFICATION_ERR=13, NAMESPACE_ERR=14, INVALID_ACCESS_ERR=15)
CODE_NAME = {v: k for k, v in CODES.items()}

SEQ = ("std::vector", "std::deque", "std::list")


def dom_code(exc):
    """DOM exception code of an exception in flight, or None"""
    if exc is not None and exc.name.split("::")[-1] == "DOMException" and len(exc.args) >= 1 and exc.args[0].k == "c":
        return exc.args[0].a[0]
    return None


def ty_record(P, name):
    return P.one_rec(NS + name)["id"]


def concrete(P, base="NodeImpl"):
    """concrete node classes: {short name: record id}; every class found must be one we know"""
    root = ty_record(P, base)
    out = {}
    for d in P.derived(root):
        r = P.recs[d]
        nm = P.rname(d).split("<")[0]
        if not r["name"].startswith(NS) or nm in ("NodeImplWithChildren", "ChildlessNodeImpl", "CharacterDataImpl", "NodeImpl"):
            continue
        out.setdefault(nm, d)
    return out


def final(P, rec, name, n):
    for m in P.method(rec, name, n):
        fo = P.final_overrider(rec, m["id"]) or m["id"]
        if fo in P.fns:
            return P.fns[fo]
    return None


def seq(*items):
    """a sequence value; an item is a term, or mk("seg", name) for an arbitrary run of other elements"""
    return mk("seq", *items)


def is_seg(t):
    return t.k == "seg"


class SeqModel(Monitor):
    """std:: sequences whose contents are known up to arbitrary runs of other elements.

    Elements are assumed distinct (`seq` values come from shapes that say so)."""

    def seq_at(self, A, st, loc):
        v = st.store.get(loc)
        if v is None and loc is not None:
            v = self.load(A, st, loc)
        if v is not None and v.k == "ctor" and len(v.a) == 1 and v.a[0].split("<")[0] in SEQ:
            return seq()                # default-constructed
        return v if v is not None and v.k == "seq" else None

    def load(self, A, st, loc):
        if loc.k == "seqel":
            return loc.a[1].a[loc.a[2]]
        if loc.k == "segel":
            return loc.a[0]
        return None

    def it_val(self, A, st, t):
        v = st.store.get(t, t)
        while v.k in ("ctor", "cast") and len(v.a) == 2 and v.a[1].k in ("it", "rit"):
            v = v.a[1]
        return v if v.k in ("it", "rit") else None

    def on_store(self, A, st, loc, val, ev):
        if loc.k == "seqel":
            items = list(loc.a[1].a); items[loc.a[2]] = val
            st.store[loc.a[0]] = seq(*items)

    def seq_call(self, A, st, ev):
        short = ev.short
        r = ev.recv
        if r is not None and "basic_string" not in (ev.cls or "").split("<")[0]:
            v = self.seq_at(A, st, r)
            if v is not None:
                n = len(v.a); segs = any(is_seg(x) for x in v.a)
                def done(val, new=None):
                    s = st.copy()
                    if new is not None:
                        s.store[r] = new
                    return [(s, val)]
                if short in ("size", "length") and not ev.vals:
                    if not segs:
                        return done(C(n))
                    t = mk("size", v); A.tyof[t] = "unsigned long"
                    s = st.copy()
                    A.meet(s, t, ((sum(1 for x in v.a if not is_seg(x)), 2 ** 32),))
                    return [(s, t)]
                if short == "empty":
                    if n > 0 and not all(is_seg(x) for x in v.a): return done(C(0))
                    if n == 0: return done(C(1))
                    return None
                if short in ("begin", "cbegin"): return done(mk("it", r, 0))
                if short in ("end", "cend"): return done(mk("it", r, n))
                if short in ("rbegin", "crbegin"): return done(mk("rit", r, n - 1))
                if short in ("rend", "crend"): return done(mk("rit", r, -1))
                if short == "front" and n and is_seg(v.a[0]): return done(mk("segel", mk("N", v.a[0].a[0] + "first")))
                if short == "back" and n and is_seg(v.a[-1]): return done(mk("segel", mk("N", v.a[-1].a[0] + "last")))
                if short in ("operator[]", "at") and n and is_seg(v.a[0]) and ev.vals[0] is C(0):
                    return done(mk("segel", mk("N", v.a[0].a[0] + "first")))
                if short == "front" and n and not is_seg(v.a[0]): return done(mk("seqel", r, v, 0))
                if short == "back" and n and not is_seg(v.a[-1]): return done(mk("seqel", r, v, n - 1))
                if short in ("operator[]", "at") and ev.vals and ev.vals[0].k == "c":
                    i = ev.vals[0].a[0]
                    if 0 <= i < n and not any(is_seg(x) for x in v.a[:i + 1]):
                        return done(mk("seqel", r, v, i))
                    raise Broken("sequence element %s of %s" % (i, v))
                if short in ("operator[]", "at"):
                    d = A.dom(st, ev.vals[0])
                    return None
                if short in ("push_back", "emplace_back"): return done(mk("void"), seq(*(v.a + (ev.vals[0],))))
                if short == "push_front": return done(mk("void"), seq(*((ev.vals[0],) + v.a)))
                if short == "pop_back" and n and not is_seg(v.a[-1]): return done(mk("void"), seq(*v.a[:-1]))
                if short == "pop_front" and n and not is_seg(v.a[0]): return done(mk("void"), seq(*v.a[1:]))
                if short == "clear": return done(mk("void"), seq())
                if short == "swap" and len(ev.args) == 1:
                    w = self.seq_at(A, st, ev.args[0])
                    if w is not None:
                        s = st.copy(); s.store[r] = w; s.store[ev.args[0]] = v
                        return [(s, mk("void"))]
                if short == "resize" and len(ev.vals) == 1 and ev.vals[0] is C(0): return done(mk("void"), seq())
                if short in ("insert", "erase"):
                    it = self.it_val(A, st, ev.vals[0])
                    if it is None or it.k != "it" or it.a[0] is not r:
                        raise Broken("sequence %s at unknown position %s" % (short, ev.vals[0]))
                    i = it.a[1]
                    if short == "insert" and len(ev.vals) == 2:
                        return done(it, seq(*(v.a[:i] + (ev.vals[1],) + v.a[i:])))
                    if short == "erase" and len(ev.vals) == 1:
                        if i >= n or is_seg(v.a[i]):
                            raise Broken("erase of unknown element")
                        return done(it, seq(*(v.a[:i] + v.a[i + 1:])))
                raise Broken("sequence operation %s not modelled" % ev.name)
        if ev.name == "std::find" and len(ev.vals) == 3:
            b, e = self.it_val(A, st, ev.vals[0]), self.it_val(A, st, ev.vals[1])
            if b is not None and e is not None:
                v = self.seq_at(A, st, b.a[0])
                x = ev.vals[2]
                i = next((j for j in range(b.a[1], e.a[1]) if v.a[j] is x or
                          is_seg(v.a[j]) and x is mk("N", v.a[j].a[0] + "first")), e.a[1])
                if any(is_seg(t) and x is mk("N", t.a[0] + "last") for t in v.a):
                    raise Broken("position of the last element of an arbitrary run")
                return [(st, mk("it", b.a[0], i))]
        if ev.name == "std::find_if" and len(ev.vals) == 3:
            b, e = self.it_val(A, st, ev.vals[0]), self.it_val(A, st, ev.vals[1])
            v = self.seq_at(A, st, b.a[0]) if b is not None and e is not None else None
            if v is not None:
                pred = self.functor(A, ev, 2)
                out = []; states = [st]
                for i in range(b.a[1], e.a[1]):
                    if is_seg(v.a[i]):
                        raise Broken("search in an arbitrary run")
                    nxt = []
                    for s in states:
                        for o in A.invoke(s, ev, pred, ev.args[2], [v.a[i]]):
                            if o.kind != "ret":
                                raise Broken("predicate raises")
                            for t in (True, False):
                                s2 = o.st.copy()
                                if A.assume(s2, o.val, t):
                                    if t:
                                        self.found(A, s2, ev, v.a[i])
                                        out.append((s2, mk("it", b.a[0], i)))
                                    else:
                                        nxt.append(s2)
                    states = nxt
                for s in states:
                    self.found(A, s, ev, None)
                    out.append((s, mk("it", b.a[0], e.a[1])))
                return out
        # iterators
        opnds = ([ev.recv] if ev.recv is not None else []) + list(ev.args)
        its = [self.it_val(A, st, x) for x in opnds]
        if opnds and its[0] is not None:
            i0 = its[0]
            if short in ("operator==", "operator!=") and len(its) == 2 and its[1] is not None:
                same = i0 is its[1]
                return [(st, C(same == (short == "operator==")))]
            if short in ("operator*", "operator->") and len(opnds) == 1:
                v = self.seq_at(A, st, i0.a[0])
                if v is None or not 0 <= i0.a[1] < len(v.a):
                    self.bad_deref(A, st, ev)
                    return [(st, mk("baditem"))]
                if is_seg(v.a[i0.a[1]]):
                    return [(st, mk("segel", mk("N", v.a[i0.a[1]].a[0] + ("first" if i0.k == "it" else "last"))))]
                el = mk("seqel", i0.a[0], v, i0.a[1])
                return [(st, el)]
            if short in ("operator++", "operator--") and ev.recv is not None:
                d = 1 if short == "operator++" else -1
                if i0.k == "rit": d = -d
                v = self.seq_at(A, st, i0.a[0])
                for j in ([i0.a[1]] if d > 0 else [i0.a[1] - 1]) if i0.k == "it" else ([i0.a[1]] if d < 0 else [i0.a[1] + 1]):
                    if v is None or 0 <= j < len(v.a) and is_seg(v.a[j]):
                        raise Broken("a run of arbitrary elements is stepped over")
                s = st.copy(); nw = mk(i0.k, i0.a[0], i0.a[1] + d)
                s.store[ev.recv] = nw
                return [(s, ev.recv if not ev.vals else i0)]
            if short in ("operator+", "operator-") and len(ev.vals) >= 1 and ev.vals[-1].k == "c":
                d = ev.vals[-1].a[0] * (1 if short == "operator+" else -1)
                return [(st, mk(i0.k, i0.a[0], i0.a[1] + d))]
        return None

    def dispatch(self, A, st, ev):
        """a virtual call that can only reach one definition, whatever the receiver's class"""
        P = A.P
        key = (ev.clsid, ev.fn)
        t = self.__dict__.setdefault("_cha", {}).get(key)
        if t is None:
            t = set()
            for d in [ev.clsid] + list(P.derived(ev.clsid)):
                if d in P.recs and not P.recs[d].get("abstract"):
                    t.add(P.final_overrider(d, ev.fn))
            self._cha[key] = t
        if len(t) == 1 and next(iter(t)) in P.fns:
            return list(t)
        return None

    def functor(self, A, ev, i):
        """operator() of the function object passed as argument i"""
        rec = A.exact.get(ev.args[i]) or A.exact.get(ev.vals[i])
        if rec is None:
            ty = ev.infn.nodes[ev.infn.nodes[ev.node]["args"][i]].get("ty", "").replace("const ", "").rstrip("& ")
            rs = A.P.rec_named(ty)
            rec = rs[0]["id"] if rs else None
        ms = A.P.method(rec, "operator()", 1) if rec else []
        if len(ms) != 1 or ms[0]["id"] not in A.P.fns:
            raise Broken("function object %s" % ev.vals[i])
        return A.P.fns[ms[0]["id"]]

    def found(self, A, st, ev, item):
        pass

    def bad_deref(self, A, st, ev):
        raise Broken("dereference of an invalid position")

    def on_call(self, A, st, ev):
        return self.seq_call(A, st, ev)


def base_state(mon):
    st = State(); st.mon = mon.init()
    return st


def construct(P, A, rec, this, mon, pick=None):
    """states after each (analysed) constructor of rec, with symbolic arguments; pick filters constructors"""
    out = []
    for m in P.methods(rec):
        if m.get("kind") != "ctor" or m["id"] not in P.fns or P.fns[m["id"]].implicit:
            continue
        f = P.fns[m["id"]]
        if pick and not pick(f):
            continue
        A.exact[this] = rec
        args = []
        for i, p in enumerate(f.params):
            t = mk("ca", f.id, i)
            A.tyof[t] = p["ty"].replace("const ", "").rstrip("& ").strip()
            args.append(t)
        for o in A.run(f, this=this, args=args, st=base_state(mon)):
            if o.kind == "ret":
                out.append((f, args, o.st))
    return out


# ------------------------------------------------------------------ worlds of nodes
class WorldMon(SeqModel):
    """everything in the DOM implementation is analysed in context; std::set of pointers is modelled as well"""
    ptr_sets = None

    def init(self):
        return ()

    def inline(self, A, fn, ev):
        return "::SimpleDOM::" in fn.name or "::DOM::" in fn.name or "string_adaptor" in fn.name

    def load(self, A, st, loc):
        if loc.k == "setel":
            return loc.a[1]
        if loc.k == "insel":
            return loc.a[0]
        return SeqModel.load(self, A, st, loc)

    def set_at(self, A, st, loc):
        v = st.store.get(loc)
        if v is not None and v.k == "ctor" and len(v.a) == 1 and v.a[0].split("<")[0] == "std::set" and loc.k == "F":
            if self.ptr_sets is None:
                self.ptr_sets = {f["name"] for r in A.P.recs.values() for f in r.get("fields", [])
                                 if f["ty"].replace("const ", "").startswith("std::set<") and f["ty"].replace(" ", "").endswith("*>")}
            return mk("set") if loc.a[1] in self.ptr_sets else None
        return v if v is not None and v.k == "set" else None

    def set_call(self, A, st, ev):
        short = ev.short; r = ev.recv
        if r is not None:
            v = self.set_at(A, st, r)
            if v is not None:
                def done(val, new=None):
                    s = st.copy()
                    if new is not None:
                        s.store[r] = new
                    return [(s, val)]
                x = ev.vals[0] if ev.vals else None
                if short == "insert" and len(ev.vals) == 1:
                    return done(mk("void"), v if x in v.a else mk("set", *sorted(v.a + (x,), key=lambda t: t.n)))
                if short in ("find", "count"):
                    hit = x in v.a
                    if not hit and any(not self.distinct(A, st, x, y) for y in v.a):
                        raise Broken("membership of %s in %s" % (x, v))
                    if short == "count": return done(C(hit))
                    return done(mk("sit", r, x) if hit else mk("sit", r, NULL))
                if short in ("end", "cend"): return done(mk("sit", r, NULL))
                if short in ("begin", "cbegin"): return done(mk("sit", r, v.a[0] if v.a else NULL))
                if short == "size": return done(C(len(v.a)))
                if short == "empty": return done(C(not v.a))
                if short == "clear": return done(mk("void"), mk("set"))
                if short == "erase" and len(ev.vals) == 1:
                    y = self.sit(st, x)
                    k = y.a[1] if y is not None else x
                    return done(mk("void"), mk("set", *[t for t in v.a if t is not k]))
                raise Broken("set operation %s not modelled" % ev.name)
            # the element a set holds after insert(x) equals x
            if short == "insert" and len(ev.vals) == 1 and (ev.cls or "").startswith("std::set"):
                return [(st, mk("ins", ev.vals[0]))]
            if short in ("operator*", "operator->"):
                i = st.store.get(r, r)
                if i.k == "ld": i = i.a[0]
                if i.k == "F" and i.a[0].k == "ins" and i.a[1] == "first":
                    return [(st, mk("insel", i.a[0].a[0]))]
        opnds = ([ev.recv] if ev.recv is not None else []) + list(ev.args)
        its = [self.sit(st, x) for x in opnds]
        if opnds and its[0] is not None and ev.name == "std::find_if" and len(ev.vals) == 3 and its[1] is not None:
            b, e = its[0], its[1]; v = self.set_at(A, st, b.a[0])
            pred = self.functor(A, ev, 2)
            run = [x for x in v.a[v.a.index(b.a[1]):]] if b.a[1] is not NULL else []
            out = []; states = [st]
            for x in run:
                if x is e.a[1]:
                    break
                nxt = []
                for s in states:
                    for o in A.invoke(s, ev, pred, ev.args[2], [x]):
                        if o.kind != "ret":
                            raise Broken("predicate raises")
                        for t in (True, False):
                            s2 = o.st.copy()
                            if A.assume(s2, o.val, t):
                                out.append((s2, mk("sit", b.a[0], x))) if t else nxt.append(s2)
                states = nxt
            return out + [(s, e) for s in states]
        if opnds and its[0] is not None:
            i = its[0]
            if short in ("operator==", "operator!=") and len(its) == 2 and its[1] is not None:
                return [(st, C((i is its[1]) == (short == "operator==")))]
            if short == "operator*":
                return [(st, mk("setel", i.a[0], i.a[1]))]
            if short == "operator++":
                v = self.set_at(A, st, i.a[0])
                j = v.a.index(i.a[1]) + 1
                s = st.copy(); s.store[ev.recv] = mk("sit", i.a[0], v.a[j] if j < len(v.a) else NULL)
                return [(s, ev.recv)]
        return None

    def distinct(self, A, st, x, y):
        return A.truth(st, A.compare(st, "==", x, y)) is False

    def sit(self, st, t):
        v = st.store.get(t, t)
        while v.k in ("ctor", "cast") and len(v.a) == 2 and v.a[1].k == "sit":
            v = v.a[1]
        return v if v.k == "sit" else None

    def on_call(self, A, st, ev):
        r = self.set_call(A, st, ev)
        if r is None:
            r = self.seq_call(A, st, ev)
        return r


class Failed(Exception):
    """an operation every scenario needs is refused on every path"""
    def __init__(self, what, where="", detail=""):
        Exception.__init__(self, what)
        self.what = what; self.where = where; self.detail = detail


def guarded(fn):
    """run a check; a scenario that cannot be set up is a violation of the property"""
    def check():
        from .report import Check
        made = []
        old = Check.__init__
        def init(self, *a, **k):
            old(self, *a, **k); made.append(self)
        Check.__init__ = init
        try:
            return fn()
        except Failed as e:
            made[0].ob(e.what, False, e.where, e.detail)
            return made[0].finish()
        finally:
            Check.__init__ = old
    return check


class World:
    """nodes of known class, built and observed through their public operations"""

    def __init__(self, P, mon=None, steps=2000000):
        self.P = P; self.mon = mon or WorldMon(); self.classes = concrete(P); self.steps = steps
        self.exact = {}; self.runs = 0; self.paths = 0
        self.gval = {}; self.cls = {}; self.fids = {}; self.tyof = {}; self.salt = 0

    def engine(self):
        A = AbsInt(self.P, self.mon, max_steps=self.steps, max_rec=6, max_depth=60)
        A.exact.update(self.exact)
        A.unique_new = True
        self.salt -= 1
        A._gval = self.gval; A.fids = self.fids; A.salt = self.salt; A.tyof = self.tyof
        return A

    def start(self):
        st = State(); st.mon = self.mon.init()
        return st

    def node(self, cls, name):
        n = mk("N", name)
        self.exact[n] = self.classes[cls]; self.cls[n] = cls
        return n

    def build(self, st, cls, name, doc=None, nparams=None):
        """(node, state) for one node of the class, freshly constructed; the state merges the ways construction succeeds"""
        n = self.node(cls, name)
        rec = self.classes[cls]
        ks = [self.P.fns[m["id"]] for m in self.P.methods(rec) if m.get("kind") == "ctor" and m["id"] in self.P.fns and
              not self.P.fns[m["id"]].implicit]
        if nparams is not None:
            ks = [f for f in ks if len(f.params) == nparams]
        if not ks:
            raise Broken("no constructor of " + cls)
        f = sorted(ks, key=lambda f: len(f.params))[0]
        A = self.engine()
        args = []
        for i, p in enumerate(f.params):
            if "DocumentImpl<" in p["ty"] and p["ty"].rstrip().endswith("*"):
                args.append(doc if doc is not None else NULL); continue
            t = mk("ca", name, i)
            A.tyof[t] = p["ty"].replace("const ", "").rstrip("& ").strip()
            args.append(t)
        outs = [o.st for o in A.run(f, this=n, args=args, st=st) if o.kind == "ret"]
        if not outs:
            raise Failed("construction of %s never succeeds" % cls, f.loc)
        return n, merge(outs)

    def fn(self, obj, name, n):
        rec = self.exact[obj]
        f = final(self.P, rec, name, n)
        if f is None:
            raise Broken("no %s/%d in %s" % (name, n, self.P.rname(rec)))
        return f

    def call(self, st, obj, name, *args):
        f = self.fn(obj, name, len(args))
        A = self.engine()
        s = st.copy(); s.mon = self.mon.init()
        outs = A.run(f, this=obj, args=list(args), st=s)
        self.runs += 1; self.paths += len(outs)
        if not outs:
            raise Broken("no path through %s of %s" % (name, obj))
        for k in A.opaque:
            if "::SimpleDOM::" in k and not k.split("::")[-1].startswith("~"):
                raise Broken("%s is not analysed inside %s of %s" % (k, name, obj))
        for k, v in A.exact.items():
            if k.k == "new":
                self.exact.setdefault(k, v)
        self.A = A
        return outs

    def get(self, st, obj, name, *args):
        """the one answer of an observer"""
        r = {o.val if o.kind == "ret" else str(o.exc) for o in self.call(st, obj, name, *args)}
        if len(r) != 1:
            raise Broken("%s of %s answers %s" % (name, obj, r))
        return next(iter(r))

    def do(self, st, obj, name, *args):
        """state after an operation that must succeed"""
        outs = self.call(st, obj, name, *args)
        ok = [o.st for o in outs if o.kind == "ret"]
        if not ok:
            raise Failed("%s of a %s never succeeds" % (name, self.cls.get(obj, obj)), self.fn(obj, name, len(args)).loc,
                         ", ".join(str(o.exc) for o in outs))
        return merge(ok)


def merge(states):
    """common part of several states"""
    out = states[0].copy()
    for s in states[1:]:
        for k in list(out.store):
            if s.store.get(k) is not out.store[k]:
                del out.store[k]
        for k in list(out.dom):
            if k not in s.dom:
                del out.dom[k]
            else:
                from .absint import iv_or
                out.dom[k] = iv_or(out.dom[k], s.dom[k])
    if len(states) > 1:
        out.ver = {}
        for s in states:
            for k, v in s.ver.items():
                out.ver[k] = max(out.ver.get(k, 0), v) if isinstance(v, int) else v
    return out
