"""Value model of library containers with a known number of elements (keys and values symbolic).

seq: vector, deque, list, stack, queue; the first item may be mk("seg", x), an arbitrary run nothing looks into.
map: map, multimap, set, multiset as entries mk("ent", key, value) in order of insertion.
pair: mk("pair", a, b).
References to elements are virtual locations el(loc, i), me(loc, key), whose contents are read through the container."""
from .prog import Broken
from .absint import Monitor, mk, C, NULL, contains
from .strs import StrModel, strval

SEQ = {"std::vector", "std::deque", "std::list", "std::stack", "std::queue"}
MAP = {"std::map", "std::multimap", "std::unordered_map"}
SET = {"std::set", "std::multiset", "std::unordered_set"}
MEND = mk("mend")
MEMBER = mk("in")


def seq(*items):
    return mk("seq", *items)


def mapv(*ents):
    return mk("map", *ents)


def ent(k, v):
    return mk("ent", k, v)


def base(cls):
    return (cls or "").split("<")[0].replace("std::__cxx11::", "std::").replace("std::__debug::", "std::")


class ContModel(StrModel, Monitor):
    maxlen = 12

    def virtual(self, loc):
        return loc.k in ("el", "me", "mkey") or loc.k == "F" and (loc.a[0].k == "me" or self.virtual(loc.a[0]))

    def load(self, A, st, loc):
        if loc.k in ("str", "seq", "map", "pair", "cat"):          # a value given where a reference is expected
            return loc
        if loc.k == "el":
            v = self.val(A, st, loc.a[0])
            if v is not None and v.k == "seq" and 0 <= loc.a[1] < len(v.a):
                return v.a[loc.a[1]]
            return mk("dangling", loc)
        if loc.k == "mkey":
            return loc.a[1]
        if loc.k == "F" and loc.a[0].k == "me" and loc.a[1] in ("first", "second"):
            m, k = loc.a[0].a
            if loc.a[1] == "first":
                return k.a[0] if k.k == "dup" else k
            v = self.val(A, st, m)
            if v is not None and v.k == "map":
                for e in v.a:
                    if e.a[0] is k:
                        return e.a[1]
            return mk("dangling", loc)
        if loc.k == "F" and loc.a[1] in ("first", "second"):
            b = loc.a[0]
            v = st.store.get(b) if not self.virtual(b) else self.load(A, st, b)
            while v is not None and v.k in ("ctor", "cast") and len(v.a) == 2:
                v = v.a[1]
            if v is None and b.k == "pair":
                v = b
            if v is not None and v.k == "pair":
                return v.a[0 if loc.a[1] == "first" else 1]
        return None

    def on_store(self, A, st, loc, val, ev):
        self.put(A, st, loc, val, False)

    def put(self, A, st, loc, val, direct=True):
        if loc.k == "el":
            v = self.val(A, st, loc.a[0])
            if v is not None and v.k == "seq" and 0 <= loc.a[1] < len(v.a):
                items = list(v.a); items[loc.a[1]] = val
                self.put(A, st, loc.a[0], seq(*items))
        elif loc.k == "F" and loc.a[0].k == "me" and loc.a[1] == "second":
            m, k = loc.a[0].a
            v = self.val(A, st, m)
            if v is not None and v.k == "map":
                self.put(A, st, m, mapv(*[ent(k, val) if e.a[0] is k else e for e in v.a]))
        elif loc.k == "F" and self.virtual(loc.a[0]) and loc.a[1] in ("first", "second"):
            p = self.load(A, st, loc.a[0])
            if p is not None and p.k == "pair":
                self.put(A, st, loc.a[0], mk("pair", val, p.a[1]) if loc.a[1] == "first" else mk("pair", p.a[0], val))
        elif direct:
            st.store[loc] = val

    def val(self, A, st, loc):
        """container value at a location, or None"""
        v = self.load(A, st, loc) if self.virtual(loc) else st.store.get(loc)
        if v is None:
            v = self.load(A, st, loc)
        if v is None:
            v = loc if loc.k in ("seq", "map", "pair") else self.initial_value(A, st, loc)
        while v is not None and v.k in ("ctor", "cast") and len(v.a) == 2 and v.a[1].k in ("seq", "map"):
            v = v.a[1]
        if v is not None and v.k == "ctor" and len(v.a) == 1:
            b = base(v.a[0])
            return seq() if b in SEQ else mapv() if b in MAP | SET else None
        return v if v is not None and v.k in ("seq", "map") else None

    def initial_value(self, A, st, loc):
        return None

    def itval(self, A, st, t):
        if t.k not in ("it", "rit", "mit"):
            t = st.store.get(t, t)
        while t.k in ("ctor", "cast") and len(t.a) == 2:
            t = t.a[1]
            if t.k not in ("it", "rit", "mit"):
                t = st.store.get(t, t)
        return t if t.k in ("it", "rit", "mit") else None

    def item(self, A, st, ev, i):
        """value to keep for argument i (objects of this repository are kept by identity of a copy)"""
        nd = ev.infn.nodes[ev.node]; a = nd.get("args", [])
        off = len(a) - len(ev.args)
        ty = ev.infn.nodes[a[i + off]].get("ty", "").replace("const ", "").rstrip("& ").strip()
        rec = A.exact.get(ev.args[i])
        if rec is None and not ty.endswith("*"):
            rs = [r for r in A.P.rec_named(ty)] if ty.startswith("Arabica::") or ty.startswith("struct ") or ty.startswith("class ") else []
            rec = rs[0]["id"] if rs else None
        if rec is not None and ev.args[i].k in ("T", "L", "F", "p", "obj", "new", "N", "elem") and not ty.endswith("*") and (ev.args[i].k != "new"):
            c = st.cnt.get("objs", 0)
            loc = mk("elem", c, ev.frame.fid, ev.node)
            A.exact[loc] = rec
            self._copies = (ev.args[i], loc)
            return mk("o", loc)
        return ev.vals[i]

    def keep_copy(self, A, s):
        c = getattr(self, "_copies", None)
        if c:
            self._copies = None
            s.cnt["objs"] = s.cnt.get("objs", 0) + 1
            for k in [k for k in s.store if contains(k, c[1])]:
                del s.store[k]
            A.copy_obj(s, c[0], c[1])

    def functor(self, A, ev, i):
        rec = A.exact.get(ev.args[i]) or A.exact.get(ev.vals[i])
        if rec is None:
            nd = ev.infn.nodes[ev.node]; a = nd["args"]
            ty = ev.infn.nodes[a[i]].get("ty", "").replace("const ", "").rstrip("& ")
            rs = A.P.rec_named(ty)
            rec = rs[0]["id"] if rs else None
        ms = A.P.method(rec, "operator()", 1) if rec else []
        if len(ms) != 1 or ms[0]["id"] not in A.P.fns:
            return None
        return A.P.fns[ms[0]["id"]]

    def search(self, A, st, ev, b, e, neg):
        """std::find_if and friends: the position of the first element for which the predicate answers"""
        v = self.val(A, st, b.a[0]); pred = self.functor(A, ev, 2)
        if v is None or pred is None:
            return None
        out = []; states = [st]
        if b.k == "mit":
            ks = [x.a[0] for x in v.a] + [MEND]
            for k in ks[ks.index(b.a[1]):ks.index(e.a[1])]:
                nxt = []
                el = mk("mkey", b.a[0], k) if base_is_set(v) else mk("me", b.a[0], k)
                if base_is_set(v) and pred.params and "&" not in pred.params[0]["ty"]:
                    el = k
                for s in states:
                    for o in A.invoke(s, ev, pred, ev.args[2], [el]):
                        if o.kind != "ret":
                            raise Broken("predicate raises")
                        for t in (True, False):
                            s2 = o.st.copy()
                            if A.assume(s2, o.val, t):
                                if t != neg: out.append((s2, mk("mit", b.a[0], k)))
                                else: nxt.append(s2)
                states = nxt
            return out + [(s, e) for s in states]
        if b.k != "it":
            return None
        for i in range(b.a[1], e.a[1]):
            nxt = []
            el = self.elref(b.a[0], v, i)
            if pred.params and "&" not in pred.params[0]["ty"] and el.k == "el":
                el = v.a[i]
            for s in states:
                for o in A.invoke(s, ev, pred, ev.args[2], [el]):
                    if o.kind != "ret":
                        raise Broken("predicate raises")
                    for t in (True, False):
                        s2 = o.st.copy()
                        if A.assume(s2, o.val, t):
                            if t != neg: out.append((s2, mk("it", b.a[0], i)))
                            else: nxt.append(s2)
            states = nxt
        return out + [(s, mk("it", b.a[0], e.a[1])) for s in states]

    def rearrange(self, A, st, ev, b, e):
        """sort, unique and reverse of a range of known length"""
        v = self.val(A, st, b.a[0])
        if v is None: return None
        rev = b.k == "rit"
        lo, hi = (e.a[1] + 1, b.a[1] + 1) if rev else (b.a[1], e.a[1])
        part = list(v.a[lo:hi])
        if rev: part.reverse()
        ref = lambda x: x.a[0] if x.k == "o" else x

        def put(s, items, val):
            s = s.copy()
            if rev: items = items[::-1]
            self.put(A, s, b.a[0], seq(*(v.a[:lo] + tuple(items) + v.a[hi:])))
            return (s, val)
        if ev.name == "std::reverse":
            return [put(st, part[::-1], mk("void"))]

        def ask(s, f, this, args):
            out = []
            for o in A.invoke(s, ev, f, this, args):
                if o.kind != "ret": raise Broken("a comparison raises")
                for t in (True, False):
                    s2 = o.st.copy()
                    if A.assume(s2, o.val, t): out.append((s2, t))
            return out
        f = this = None
        if len(ev.args) == 3:
            c = ev.vals[2]
            if c.k == "ld" and c.a[0].k == "fn": c = c.a[0]
            if c.k == "fn" and c.a[0] in A.P.fns: f = A.P.fns[c.a[0]]
            elif c.k == "lam" and c.a[0] in A.P.fns: f = A.P.fns[c.a[0]]; this = ev.args[2]
            else:
                rec = A.exact.get(ev.args[2]) or A.exact.get(c)
                ms = [m for m in A.P.method(rec, "operator()", 2) if m["id"] in A.P.fns] if rec else []
                if len(ms) == 1: f = A.P.fns[ms[0]["id"]]; this = ev.args[2]
        if ev.name == "std::unique":
            work = [(st, [])]
            for x in part:
                nxt = []
                for s, acc in work:
                    if not acc: nxt.append((s, [x])); continue
                    y = acc[-1]
                    if x is y: nxt.append((s, acc)); continue
                    if len(ev.args) == 3:
                        if f is None: raise Broken("equality not known (%s)" % ", ".join(map(str, ev.vals)))
                        for s2, t in ask(s, f, this, [ref(y), ref(x)]):
                            nxt.append((s2, acc if t else acc + [x]))
                    elif x.k == "o":
                        rec = A.exact.get(x.a[0])
                        g = self.equality(A, rec)
                        for s2, t in ask(s, g[0], ref(y) if g[1] else None, [ref(x)] if g[1] else [ref(y), ref(x)]):
                            nxt.append((s2, acc if t else acc + [x]))
                    else:
                        t = A.compare(s, "==", x, y)
                        for w in (True, False):
                            s2 = s.copy()
                            if A.assume(s2, t, w): nxt.append((s2, acc if w else acc + [x]))
                work = nxt
            return [put(s, acc + part[len(acc):], mk(b.k, b.a[0], (lo + len(acc)) if not rev else hi - 1 - len(acc))) for s, acc in work]
        if f is None and len(part) > 1:
            raise Broken("sorting order not known (%s) in %s" % (", ".join(map(str, ev.vals)), ev.where))
        work = [(st, [])]
        for x in part:                              # insertion sort: any strict weak order is settled by these comparisons
            nxt = []
            for s, acc in work:
                pend = [(s, len(acc))]
                while pend:
                    s1, i = pend.pop()
                    if i == 0: nxt.append((s1, [x] + acc)); continue
                    for s2, t in ask(s1, f, this, [ref(x), ref(acc[i - 1])]):
                        if t: pend.append((s2, i - 1))
                        else: nxt.append((s2, acc[:i] + [x] + acc[i:]))
            work = nxt
        return [put(s, acc, mk("void")) for s, acc in work]

    def equality(self, A, rec):
        """(function, is it a member) comparing two objects of a class"""
        ms = [m for m in A.P.method(rec, "operator==", 1) if m["id"] in A.P.fns] if rec else []
        short = A.P.recs[rec]["name"].split("<")[0].split("::")[-1] if rec else "?"
        own = [m for m in ms if short + "<" in A.P.fns[m["id"]].params[0]["ty"] or len(ms) == 1]
        if len(own) == 1: return A.P.fns[own[0]["id"]], True
        raise Broken("equality of %s" % short)

    def equivalent(self, A, st, ev, x, y):
        """(state, whether neither object is before the other)"""
        rec = A.exact.get(x) or A.exact.get(y)
        ms = [m for m in A.P.method(rec, "operator<", 1) if m["id"] in A.P.fns] if rec else []
        if len(ms) != 1: raise Broken("the order of %s" % (A.P.recs[rec]["name"] if rec else "keys"))
        f = A.P.fns[ms[0]["id"]]; out = []

        def ask(s, a, b):
            for o in A.invoke(s, ev, f, a, [b]):
                if o.kind != "ret": raise Broken("a comparison raises")
                for t in (True, False):
                    s2 = o.st.copy()
                    if A.assume(s2, o.val, t): yield s2, t
        for s, t in ask(st, x, y):
            if t: out.append((s, False))
            else: out += [(s2, not u) for s2, u in ask(s, y, x)]
        return out

    def matches(self, A, st, v, key, ev=None):
        """(state, entry or None) for a look-up of key in map value v"""
        out = []; states = [st]
        for e in v.a:
            nxt = []
            if e.a[0].k == "o" and ev is not None and e.a[0] is not key:
                for s in states:
                    for s2, t in self.equivalent(A, s, ev, e.a[0].a[0], key.a[0] if key.k == "o" else ev.args[0]):
                        (out.append((s2, e)) if t else nxt.append(s2))
                states = nxt
                continue
            for s in states:
                k = e.a[0].a[0] if e.a[0].k == "dup" else e.a[0]
                t = C(1) if k is key else A.compare(s, "==", k, key)
                r = A.truth(s, t)
                if r is not False:
                    s2 = s.copy()
                    if r is True or A.assume(s2, t, True):
                        out.append((s2, e))
                if r is not True:
                    s2 = s.copy()
                    if r is False or A.assume(s2, t, False):
                        nxt.append(s2)
            states = nxt
        return out + [(s, None) for s in states]

    def cont_call(self, A, st, ev):
        short, r = ev.short, ev.recv
        if ev.kind in ("new", "delete"):
            return None
        if ev.kind == "ctor":
            b = base(ev.cls)
            if b == "std::pair" and len(ev.vals) == 2:
                return [(st, mk("pair", *ev.vals))]
            if b in SEQ and len(ev.args) == 2:
                x, y = self.itval(A, st, ev.args[0]), self.itval(A, st, ev.args[1])
                if x is not None and y is not None and x.k == "it" and x.a[0] is y.a[0]:
                    v = self.val(A, st, x.a[0])
                    if v is not None:
                        return [(st, seq(*v.a[x.a[1]:y.a[1]]))]
            return None
        if ev.name == "std::make_pair" and len(ev.vals) == 2:
            return [(st, mk("pair", *ev.vals))]
        if r is not None and (base(ev.cls) in SEQ | MAP | SET or base(ev.cls).endswith("::basic_string")):
            v = self.val(A, st, r)
            if v is not None and (base(ev.cls) in SEQ | MAP | SET or v.k == "seq" and
                                  ev.short in ("begin", "end", "cbegin", "cend", "rbegin", "rend", "size", "length", "empty", "operator[]", "at")):
                res = self.on_seq(A, st, ev, r, v) if v.k == "seq" else self.on_map(A, st, ev, r, v)
                if res is None:
                    raise Broken("container operation %s not modelled (%s)" % (ev.name, ", ".join("%s" % (x,) for x in ev.args)))
                return res
            return None
        if ev.name in ("std::find",) and len(ev.vals) == 3:
            b, e = self.itval(A, st, ev.args[0]), self.itval(A, st, ev.args[1])
            if b is not None and e is not None and b.k == "it":
                v = self.val(A, st, b.a[0])
                out = []; states = [st]
                for i in range(b.a[1], e.a[1]):
                    nxt = []
                    for s in states:
                        t = A.compare(s, "==", v.a[i], ev.vals[2]) if v.a[i] is not ev.vals[2] else C(1)
                        for b_ in (True, False):
                            s2 = s.copy()
                            if A.assume(s2, t, b_):
                                if b_: out.append((s2, mk("it", b.a[0], i)))
                                else: nxt.append(s2)
                    states = nxt
                return out + [(s, mk("it", b.a[0], e.a[1])) for s in states]
        if ev.name in ("std::find_if", "std::find_if_not") and len(ev.vals) == 3:
            b, e = self.itval(A, st, ev.args[0]), self.itval(A, st, ev.args[1])
            if b is not None and e is not None:
                return self.search(A, st, ev, b, e, ev.name.endswith("not"))
        if ev.name in ("std::sort", "std::stable_sort", "std::unique", "std::reverse") and len(ev.args) in (2, 3):
            b, e = self.itval(A, st, ev.args[0]), self.itval(A, st, ev.args[1])
            if b is not None and e is not None and b.k in ("it", "rit") and b.a[0] is e.a[0]:
                return self.rearrange(A, st, ev, b, e)
        if ev.name == "std::distance" and len(ev.args) == 2:
            b, e = self.itval(A, st, ev.args[0]), self.itval(A, st, ev.args[1])
            if b is not None and e is not None and b.k != "mit":
                return [(st, C((e.a[1] - b.a[1]) * (1 if b.k == "it" else -1)))]
        ops = ([r] if r is not None else []) + list(ev.args)
        if not ops:
            return None
        i0 = self.itval(A, st, ops[0])
        if i0 is None:
            return None
        if short in ("operator==", "operator!=") and len(ops) == 2:
            i1 = self.itval(A, st, ops[1])
            if i1 is not None:
                return [(st, C((i0 is i1) == (short == "operator==")))]
            return None
        if short in ("operator*", "operator->") and len(ops) == 1:
            if i0.k == "mit":
                if i0.a[1] is MEND:
                    raise Broken("dereference of end()")
                mv = self.val(A, st, i0.a[0])
                if base_is_set(mv):
                    return [(st, mk("mkey", i0.a[0], i0.a[1]))]
                return [(st, mk("me", i0.a[0], i0.a[1]))]
            v = self.val(A, st, i0.a[0])
            if v is None or not 0 <= i0.a[1] < len(v.a):
                raise Broken("dereference of an invalid position")
            return [(st, self.elref(i0.a[0], v, i0.a[1]))]
        if short in ("operator++", "operator--"):
            d = 1 if short == "operator++" else -1
            s = st.copy()
            if i0.k == "mit":
                v = self.val(A, st, i0.a[0]); ks = [e.a[0] for e in v.a] + [MEND]
                nw = mk("mit", i0.a[0], ks[ks.index(i0.a[1]) + d])
            else:
                v = self.val(A, st, i0.a[0])
                if i0.k == "rit": d = -d
                j = i0.a[1] + d
                if v is None or not -1 <= j <= len(v.a):
                    raise Broken("position moved out of range")
                nw = mk(i0.k, i0.a[0], j)
            s.store[ops[0]] = nw
            return [(s, ops[0] if len(ops) == 1 else i0)]
        if short in ("operator+", "operator-", "operator+=", "operator-=") and i0.k in ("it", "rit") and len(ops) == 2:
            i1 = self.itval(A, st, ops[1])
            if i1 is not None and short == "operator-":
                return [(st, C(i0.a[1] - i1.a[1]))]
            x = ev.vals[-1]
            if x.k == "c":
                d = x.a[0] * (1 if "+" in short else -1) * (1 if i0.k == "it" else -1)
                nw = mk(i0.k, i0.a[0], i0.a[1] + d)
                if short.endswith("="):
                    s = st.copy(); s.store[ops[0]] = nw
                    return [(s, ops[0])]
                return [(st, nw)]
            v = self.val(A, st, i0.a[0])
            if v is not None and not short.endswith("="):
                out = []
                for j in range(-len(v.a), len(v.a) + 1):
                    s = st.copy()
                    if A.meet(s, x, ((j, j),)):
                        out.append((s, mk(i0.k, i0.a[0], i0.a[1] + j * (1 if "+" in short else -1) * (1 if i0.k == "it" else -1))))
                return out
        return None

    def into_rest(self, A, st, ev):
        raise Broken("look-up reaches the arbitrary part of a container")

    def elref(self, loc, v, i):
        x = v.a[i]
        if x.k == "seg":                   # some element of the arbitrary part
            return mk("restel", loc, x)
        if x.k == "o":
            return x.a[0]
        return mk("el", loc, i)

    def on_seq(self, A, st, ev, r, v):
        short = ev.short; n = len(v.a); segs = any(x.k == "seg" for x in v.a)

        def done(val, new=None):
            s = st.copy()
            if new is not None:
                if len(new.a) > self.maxlen:
                    raise Broken("container grows without bound")
                self.put(A, s, r, new)
                self.keep_copy(A, s)
            return [(s, val)]
        if short in ("size", "length") and not ev.vals:
            if not segs: return done(C(n))
            t = mk("size", v); A.tyof[t] = "unsigned long"; s = st.copy()
            A.meet(s, t, ((n - 1, 2 ** 32),))
            return [(s, t)]
        if short == "empty":
            if n == 0: return done(C(1))
            if not all(x.k == "seg" for x in v.a): return done(C(0))
            t = mk("isempty", v); A.tyof[t] = "bool"
            return [(st, t)]
        if short in ("begin", "cbegin"): return done(mk("it", r, 0))
        if short in ("end", "cend"): return done(mk("it", r, n))
        if short in ("rbegin", "crbegin"): return done(mk("rit", r, n - 1))
        if short in ("rend", "crend"): return done(mk("rit", r, -1))
        if short in ("back", "top") and n:
            return done(self.elref(r, v, n - 1))
        if short == "front" and n: return done(self.elref(r, v, 0))
        if short in ("back", "top", "front", "pop_back", "pop", "pop_front") and not n:
            self.underflow(A, st, ev)
            return []
        if short in ("operator[]", "at"):
            i = ev.vals[0]
            if i.k == "c" and not segs:
                if 0 <= i.a[0] < n: return done(self.elref(r, v, i.a[0]))
                self.bad_index(A, st, ev)
                return []
            if not segs:
                out = []
                for j in range(n):
                    s = st.copy()
                    if A.meet(s, i, ((j, j),)): out.append((s, self.elref(r, v, j)))
                s = st.copy()
                if A.meet(s, i, ((n, 2 ** 64),)): self.bad_index(A, s, ev)
                return out
            return None
        if short in ("push_back", "emplace_back", "push"):
            return done(mk("void"), seq(*(v.a + (self.item(A, st, ev, 0),)))) if len(ev.vals) == 1 else None
        if short == "push_front": return done(mk("void"), seq(*((self.item(A, st, ev, 0),) + v.a)))
        if short in ("pop_back", "pop") and n:
            if base(ev.cls) == "std::queue": return done(mk("void"), seq(*v.a[1:]))
            if v.a[-1].k == "seg": self.into_rest(A, st, ev)
            return done(mk("void"), seq(*v.a[:-1]))
        if short == "pop_front" and n and v.a[0].k != "seg": return done(mk("void"), seq(*v.a[1:]))
        if short == "clear": return done(mk("void"), seq())
        if short == "reserve": return done(mk("void"))
        if short == "resize" and ev.vals[0].k == "c" and ev.vals[0].a[0] <= n: return done(mk("void"), seq(*v.a[:ev.vals[0].a[0]]))
        if short == "erase" and ev.args:
            i = self.itval(A, st, ev.args[0])
            if i is not None and i.k == "it" and i.a[0] is r:
                if len(ev.args) == 2:
                    j = self.itval(A, st, ev.args[1])
                    if j is None: return None
                    if not 0 <= i.a[1] <= j.a[1] <= n: self.bad_index(A, st, ev); return []
                    return done(i, seq(*(v.a[:i.a[1]] + v.a[j.a[1]:])))
                if not 0 <= i.a[1] < n or v.a[i.a[1]].k == "seg":
                    self.bad_index(A, st, ev); return []
                return done(i, seq(*(v.a[:i.a[1]] + v.a[i.a[1] + 1:])))
        if short == "insert" and len(ev.args) == 2:
            i = self.itval(A, st, ev.args[0])
            if i is not None and i.k == "it" and i.a[0] is r:
                if not 0 <= i.a[1] <= n: self.bad_index(A, st, ev); return []
                return done(i, seq(*(v.a[:i.a[1]] + (ev.vals[1],) + v.a[i.a[1]:])))
        if short == "insert" and len(ev.args) == 3:
            i, f, l = (self.itval(A, st, x) for x in ev.args)
            if i is not None and f is not None and l is not None and i.k == "it" and i.a[0] is r and f.k == l.k == "it" and f.a[0] is l.a[0]:
                w = self.val(A, st, f.a[0])
                if w is not None and not any(x.k == "seg" for x in w.a[f.a[1]:l.a[1]]):
                    if not (0 <= i.a[1] <= n and 0 <= f.a[1] <= l.a[1] <= len(w.a)): self.bad_index(A, st, ev); return []
                    return done(i, seq(*(v.a[:i.a[1]] + w.a[f.a[1]:l.a[1]] + v.a[i.a[1]:])))
        if short == "swap" and len(ev.args) == 1:
            w = self.val(A, st, ev.args[0])
            if w is not None:
                s = st.copy(); self.put(A, s, r, w); self.put(A, s, ev.args[0], v)
                return [(s, mk("void"))]
        if short == "operator=" and ev.args:
            w = self.val(A, st, ev.args[0])
            if w is None and ev.vals[0].k in ("seq",): w = ev.vals[0]
            if w is not None: return done(r, w)
            s = st.copy(); self.put(A, s, r, ev.vals[0]); return [(s, r)]
        return None

    def on_map(self, A, st, ev, r, v):
        short = ev.short; b = base(ev.cls); multi = "multi" in b

        def done(val, new=None, s=None):
            s = (s or st).copy()
            if new is not None:
                if len(new.a) > self.maxlen:
                    raise Broken("container grows without bound")
                self.put(A, s, r, new)
            return [(s, val)]
        if short in ("begin", "cbegin"): return done(mk("mit", r, v.a[0].a[0] if v.a else MEND))
        if short in ("end", "cend"): return done(mk("mit", r, MEND))
        if short == "size": return done(C(len(v.a)))
        if short == "empty": return done(C(not v.a))
        if short == "clear": return done(mk("void"), mapv())
        if short in ("find", "count"):
            out = []
            for s, e in self.matches(A, st, v, ev.vals[0], ev):
                if short == "count": out.append((s, C(e is not None)))
                else: out.append((s, mk("mit", r, e.a[0] if e is not None else MEND)))
            return out
        if short in ("insert", "emplace"):
            if b in SET and len(ev.vals) == 1:
                k, x = ev.vals[0], MEMBER
            else:
                p = ev.vals[0]
                while p.k in ("ctor", "cast") and len(p.a) == 2: p = p.a[1]
                if p.k == "pair": k, x = p.a
                elif len(ev.vals) == 2 and short == "emplace": k, x = ev.vals
                elif len(p.a) == 3 and p.k == "ctor": k, x = p.a[1:]
                else:
                    k, x = A.load(st, mk("F", ev.args[0], "first")), A.load(st, mk("F", ev.args[0], "second"))
            if multi:
                kk = mk("dup", k, len(v.a)) if any(e.a[0] is k for e in v.a) else k
                return done(mk("mit", r, kk), mapv(*(v.a + (ent(kk, x),))))
            out = []
            for s, e in self.matches(A, st, v, k):
                if e is None: out += done(mk("pair", mk("mit", r, k), C(1)), mapv(*(v.a + (ent(k, x),))), s)
                else: out.append((s, mk("pair", mk("mit", r, e.a[0]), C(0))))
            return out
        if short in ("operator[]", "at"):
            out = []
            for s, e in self.matches(A, st, v, ev.vals[0]):
                if e is None:
                    if short == "at": return None
                    s = s.copy(); k = ev.vals[0]
                    self.put(A, s, r, mapv(*(v.a + (ent(k, self.default_mapped(A, ev)),))))
                    out.append((s, mk("F", mk("me", r, k), "second")))
                else:
                    out.append((s, mk("F", mk("me", r, e.a[0]), "second")))
            return out
        if short == "erase" and len(ev.args) == 1:
            i = self.itval(A, st, ev.args[0])
            if i is not None and i.k == "mit":
                return done(mk("void"), mapv(*[e for e in v.a if e.a[0] is not i.a[1]]))
            out = []
            for s, e in self.matches(A, st, v, ev.vals[0]):
                out += done(C(e is not None), mapv(*[x for x in v.a if x is not e]), s)
            return out
        if short in ("operator=", "swap") and ev.args:
            w = self.val(A, st, ev.args[0])
            if w is None and ev.vals[0].k == "map": w = ev.vals[0]
            if w is None and ev.vals[0].k == "ctor" and len(ev.vals[0].a) == 1 and base(ev.vals[0].a[0]) in MAP | SET: w = mapv()
            if w is not None:
                s = st.copy()
                if self.whole and short == "operator=" and ev.args[0].k in ("T", "L", "F", "G", "new", "p"): A.copy_obj(s, ev.args[0], r)
                self.put(A, s, r, w)
                if short == "swap": self.put(A, s, ev.args[0], v)
                return [(s, r)]
        return None

    def default_mapped(self, A, ev):
        c = ev.cls or ""
        ty = str(ev.infn.nodes[ev.node].get("ty", "")).rstrip("& ")
        if ty.endswith("*"):
            return NULL
        if ty in ("bool", "int", "unsigned int", "long", "unsigned long", "size_t"):
            return C(0)
        return mk("s", "") if "basic_string" in c.split(",")[1 if "basic_string" in c.split(",")[0] else 0:][-1] or c.count("basic_string") > 1 else mk("ctor", "?")

    def underflow(self, A, st, ev):
        raise Broken("%s on an empty container" % ev.name)

    def bad_index(self, A, st, ev):
        raise Broken("%s out of range" % ev.name)

    def on_call(self, A, st, ev):
        r = self.str_call(A, st, ev)
        if r is None:
            r = self.cont_call(A, st, ev)
        return r


def base_is_set(v):
    return v is not None and v.k == "map" and len(v.a) > 0 and all(e.a[1] is MEMBER for e in v.a)
