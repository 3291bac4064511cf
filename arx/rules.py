"""Monitors shared by several properties: stream output languages and typestate exploration."""
import re
from .prog import Broken
from .absint import (AbsInt, Monitor, mk, C, State, Outcome, iv_and, iv_not, iv_or, iv_sub, iv_size, int_range, show, contains,
                     subterms, base_name, is_c)


def std(ev):
    return ev.name.startswith("std::") or (ev.cls or "").startswith("std::")


class StreamOut(Monitor):
    """Collects, per path, what is inserted into output streams.

    Tokens: a literal code unit (int), ("v", term) for an inserted value, ("esc", kind, term) for a run of characters passed
    through an escaper, ("*", tokens) for a loop body met zero or more times, and whatever tokens `event` yields.
    """
    escapers = {}          # functor class -> kind
    depth = None

    def init(self):
        return ()

    def tok(self, st, *t):
        st.mon = st.mon + t

    def put(self, A, st, v):
        if v.k == "ld" and v.a[0].k == "fn":
            v = v.a[0]
        if v.k == "c":
            self.tok(st, v.a[0])
        elif v.k == "s":
            self.tok(st, *[ord(x) if isinstance(x, str) else x for x in v.a[0]])
        elif v.k == "fn":
            n = A.P.fns[v.a[0]].name if v.a[0] in A.P.fns else v.a[0]
            self.tok(st, 10) if "endl" in n else None
        else:
            self.tok(st, ("v", v))

    def event(self, A, st, ev):
        """property-specific: None, or a list of (state, value)"""
        return None

    def on_call(self, A, st, ev):
        r = self.event(A, st, ev)
        if r is not None:
            return r
        if ev.short == "operator<<" and std(ev):
            a = list(ev.vals) if ev.recv is not None else list(ev.vals)[1:]
            loc = ev.recv if ev.recv is not None else ev.args[0]
            if a:
                st = st.copy()
                self.put(A, st, a[0])
                return [(st, loc)]
        if ev.recv is not None and "ostream" in (ev.cls or ""):
            if ev.short == "put":
                st = st.copy(); self.put(A, st, ev.vals[0])
                return [(st, ev.recv)]
            if ev.short == "write" and len(ev.vals) == 2:
                st = st.copy()
                v, n = ev.vals
                if v.k == "I" and v.a[0].k == "s" and v.a[1].k == "c" and v.a[1].a[0] == 0: v = v.a[0]
                if v.k == "s" and n.k == "c":
                    v = mk("s", v.a[0][:n.a[0]])
                self.put(A, st, v)
                return [(st, ev.recv)]
            if ev.short == "flush":
                return [(st, ev.recv)]
        if ev.name == "std::endl":
            st = st.copy(); self.tok(st, 10)
            return [(st, ev.args[0])]
        if ev.name == "std::for_each" and len(ev.args) == 3:
            k = self.functor_kind(A, st, ev)
            if k:
                st = st.copy()
                self.tok(st, ("esc", k, self.range_of(ev.vals[0], ev.vals[1])))
                return [(st, ev.vals[2])]
        return None

    def functor_kind(self, A, st, ev):
        rec = A.exact.get(ev.args[2]) or A.exact.get(ev.vals[2])
        if rec is None:
            nd = ev.infn.nodes[ev.node]
            t = ev.infn.nodes[nd["args"][2]].get("ty", "")
            for c, k in self.escapers.items():
                if c in t:
                    return k
            return None
        for c, k in self.escapers.items():
            if A.P.recs[rec]["name"].endswith("::" + c):
                return k
        return None

    def range_of(self, b, e):
        """the container iterated by begin/end pair (b, e), or a pair"""
        def src(t, names):
            while t.k in ("ctor", "cast") and len(t.a) == 2:
                t = t.a[1]
            if t.k == "call" and t.a[0].rsplit("::", 1)[-1] in names and len(t.a) > 1:
                return t.a[-1]
            return None
        x, y = src(b, ("begin", "cbegin")), src(e, ("end", "cend"))
        if x is not None and x is y:
            return x
        return mk("range", b, e)

    # loops: keep one copy of the body per distinct shape
    def on_head(self, A, st, key, first):
        if st.mon is None:
            return
        mark = ("H",) + key
        if mark in st.mon and not first:
            i = len(st.mon) - 1 - st.mon[::-1].index(mark)
            seg = tuple(t for t in st.mon[i + 1:] if not (isinstance(t, tuple) and t and t[0] == "H"))
            pre = st.mon[:i]
            rep = ("*", seg) if seg else None
            if rep is not None:
                j = len(pre)
                while j and isinstance(pre[j - 1], tuple) and pre[j - 1][0] == "*":
                    j -= 1
                if rep not in pre[j:]:           # the set of body shapes met, in a canonical order
                    pre = pre[:j] + tuple(sorted(pre[j:] + (rep,), key=repr_key))
            st.mon = pre + (mark,)
        else:
            st.mon = tuple(t for t in st.mon if t != mark) + (mark,)


def repr_key(t):
    if isinstance(t, tuple):
        return (1,) + tuple(repr_key(x) for x in t)
    if isinstance(t, int):
        return (2, t)
    if isinstance(t, str):
        return (3, t)
    return (4, t.n)


def strip(tokens):
    out = []
    for t in tokens:
        if isinstance(t, tuple) and t and t[0] == "H":
            continue
        if isinstance(t, tuple) and t and t[0] == "*":
            t = ("*", strip(t[1]))
        out.append(t)
    return tuple(out)


def render(tokens, name):
    """tokens as text: literal characters, and {..} for everything else (name(term) gives the text)"""
    s = []
    for t in tokens:
        if isinstance(t, int):
            s.append(chr(t) if 0 <= t < 0x110000 else "\\?")
        elif t[0] == "v":
            s.append("{%s}" % name(t[1]))
        elif t[0] == "esc":
            s.append("{%s:%s}" % (t[1], name(t[2])))
        elif t[0] == "*":
            s.append("{*%s*}" % render(t[1], name))
        elif t[0] == "H":
            pass
        else:
            s.append("{%s}" % "|".join(x if isinstance(x, str) else name(x) for x in t))
    return "".join(s)


# ------------------------------------------------------------------ typestate exploration
class Explorer:
    """Product of an object's abstract state (its constant-valued fields) with a specification automaton, over every
    sequence of the given operations: a fixpoint over reachable pairs."""

    def __init__(self, P, rec, mon, this=None, max_pairs=4000, keep=None):
        self.P = P; self.rec = rec; self.mon = mon
        self.this = this or mk("obj0", rec)
        self.max_pairs = max_pairs
        self.keep = keep
        self.pairs = 0; self.trans = 0; self.A = None

    def snapshot(self, st):
        out = {}
        for loc, v in st.store.items():
            if loc.k == "F" and loc.a[0] is self.this:
                if v.k in ("c", "s", "f") or (v.k in ("ca", "G", "fn")) or (v.k == "ld" and v.a[0].k in ("ca",)):
                    out[loc] = v
                elif self.keep and self.keep(loc, v):
                    out[loc] = v
        return out

    def engine(self):
        A = AbsInt(self.P, self.mon)
        A.exact[self.this] = self.rec
        self.A = A
        return A

    def construct(self, ctor):
        """abstract states after running constructor fn"""
        A = self.engine()
        args = []
        for i, p in enumerate(ctor.params):
            t = mk("ca", ctor.id, i); A.tyof[t] = p["ty"].replace("const ", "").rstrip("&* ").strip() if "*" not in p["ty"] else p["ty"]
            args.append(t)
        st = State(); st.mon = self.mon.init()
        res = []
        for o in A.run(ctor, this=self.this, args=args, st=st):
            if o.kind == "ret":
                res.append(self.snapshot(o.st))
        return res

    def step(self, snap, fn, mon0=None, args=None):
        """outcomes of fn from abstract state snap; args: {index: value} for arguments that are not arbitrary"""
        A = self.engine()
        st = State(); st.mon = self.mon.init() if mon0 is None else mon0
        # fields not known to be constant are arbitrary
        st.store.update(snap)
        av = A.sym_args(fn)
        for i, v in (args or {}).items():
            if fn.params[i]["ty"].rstrip().endswith("&"):
                T = mk("T", "arg", i)
                st.store[T] = v
                v = T
            av[i] = v
        outs = A.run(fn, this=self.this, st=st, args=av)
        return A, outs

    def explore(self, starts, ops, spec_start, on_outcome):
        """on_outcome(A, op, spec_state, outcome) -> next spec state (or None to stop that branch)"""
        seen = set()
        work = [(s, spec_start) for s in starts]
        while work:
            snap, q = work.pop()
            key = (frozenset(snap.items()), q)
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > self.max_pairs:
                raise Broken("typestate exploration does not converge")
            for name, fn in ops:
                A, outs = self.step(snap, fn)
                for o in outs:
                    self.trans += 1
                    q2 = on_outcome(A, name, q, o)
                    if q2 is not None:
                        work.append((self.snapshot(o.st), q2))
        self.pairs = len(seen)
        return seen


def merge_generalise(snaps):
    """greatest common constant part of several snapshots"""
    out = dict(snaps[0])
    for s in snaps[1:]:
        for k in list(out):
            if s.get(k) is not out[k]:
                del out[k]
    return out
