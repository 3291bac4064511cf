"""Running public operations of one object after another in the abstract interpreter."""
from .prog import Broken
from .absint import AbsInt, State, mk, C
from .cont import ContModel
from .sax import handler_event
from .strs import strval, sub
from checks.C04 import final, unld


class Sim:
    def __init__(self, P, mon, steps=200000, **kw):
        self.P = P; self.mon = mon; self.steps = steps; self.kw = kw
        self.exact = {}; self.fids = {}; self.tyof = {}; self.salt = 0; self.runs = 0; self.paths = 0
        self.extent = {}

    def engine(self):
        A = AbsInt(self.P, self.mon, max_steps=self.steps, **self.kw)
        A.exact.update(self.exact)
        self.salt -= 1
        A.fids = self.fids; A.salt = self.salt; A.tyof = self.tyof
        return A

    def start(self):
        st = State(); st.mon = self.mon.init()
        return st

    def obj(self, rec, name="obj"):
        o = mk("obj", name)
        self.exact[o] = rec
        return o

    def new(self, st, o, nparams=None, args=None):
        """states after each constructor of the object's class: [(ctor, outcome)]"""
        rec = self.exact[o]
        out = []
        for m in self.P.methods(rec):
            if m.get("kind") != "ctor" or m["id"] not in self.P.fns:
                continue
            k = self.P.fns[m["id"]]
            if k.implicit and k.params or nparams is not None and len(k.params) != nparams or self.is_copy(k):
                continue
            for x in self.go(st, o, k, args):
                out.append((k, x))
        if not out:
            raise Broken("no constructor of %s" % self.P.rname(rec))
        return out

    def is_copy(self, k):
        return len(k.params) == 1 and self.P.recs[k.cls]["name"].split("<")[0] in k.params[0]["ty"] and "&" in k.params[0]["ty"]

    def go(self, st, o, f, args=None):
        A = self.engine(); s = st.copy(); s.mon = self.mon.init()
        outs = A.run(f, this=o, args=args, st=s)
        if not outs:
            raise Broken("no path through %s" % f.name)
        for k, v in A.exact.items():
            self.exact.setdefault(k, v)
        self.runs += 1; self.paths += len(outs)
        self.A = A
        return outs

    def fn(self, o, name, n):
        f = final(self.P, self.exact[o], name, n)
        if f is None:
            raise Broken("%s has no %s/%d" % (self.P.rname(self.exact[o]), name, n))
        return f

    def call(self, st, o, name, *args):
        return self.go(st, o, self.fn(o, name, len(args)), list(args))

    def do(self, st, o, name, *args):
        """the states in which the call returned"""
        return [x.st for x in self.call(st, o, name, *args) if x.kind == "ret"]

    def get(self, st, o, name, *args):
        """the value(s) an observer returns"""
        out = []
        for x in self.call(st, o, name, *args):
            if x.kind != "ret":
                out.append("throws %s" % x.exc)
            else:
                v = x.val
                if v.k in ("F", "L", "T", "el", "I"):
                    v = self.engine().load(x.st, v)
                out.append(v)
        return out


class EventMon(ContModel):
    """records handler events passed on, with the state at that moment"""
    own = ("Arabica::",)
    closed = ("Arabica::io::URI",)

    def __init__(self):
        self.snaps = []

    def init(self):
        return ()

    def inline(self, A, fn, ev):
        return any(x in (fn.clsn or fn.name) for x in self.own) and not any(x in (fn.clsn or fn.name) for x in self.closed)

    def on_call(self, A, st, ev):
        h = handler_event(ev)
        if h and ev.virt and A.exact.get(ev.recv) is None:
            st = st.copy()
            self.snaps.append(st.copy())
            st.mon = st.mon + ((h[1], tuple(ev.vals), len(self.snaps) - 1),)
            return [(st, mk("void"))]
        return ContModel.on_call(self, A, st, ev)


class OutMon(EventMon):
    """also records, in order with the events, what is inserted into output streams: code units (int) or ("v", term)"""

    def put_out(self, A, st, v):
        if v.k == "ld" and v.a[0].k == "fn":
            v = v.a[0]
        if v.k in ("c",):
            st.mon = st.mon + (v.a[0],)
        elif v.k == "s":
            st.mon = st.mon + tuple(ord(x) if isinstance(x, str) else x for x in v.a[0])
        elif v.k == "seq":
            for x in v.a: self.put_out(A, st, x)
        elif v.k == "cat":
            for x in v.a: self.put_out(A, st, x)
        elif v.k == "chr":
            self.put_out(A, st, v.a[0])
        elif v.k == "fn":
            n = A.P.fns[v.a[0]].name if v.a[0] in A.P.fns else v.a[0]
            if "endl" in n: st.mon = st.mon + (10,)
        else:
            w = strval(v)
            if w is not v: self.put_out(A, st, w)
            else: st.mon = st.mon + (("v", v),)

    def event(self, A, st, ev):
        return None

    def on_call(self, A, st, ev):
        r = self.event(A, st, ev)
        if r is not None:
            return r
        std = ev.name.startswith("std::") or (ev.cls or "").startswith("std::")
        if ev.short == "operator<<" and std:
            a = list(ev.vals) if ev.recv is not None else list(ev.vals)[1:]
            loc = ev.recv if ev.recv is not None else ev.args[0]
            if a:
                st = st.copy(); self.put_out(A, st, a[0])
                return [(st, loc)]
        if ev.recv is not None and "ostream" in (ev.cls or ""):
            if ev.short == "put":
                st = st.copy(); self.put_out(A, st, ev.vals[0]); return [(st, ev.recv)]
            if ev.short == "write" and len(ev.vals) == 2:
                st = st.copy(); self.put_out(A, st, sub(ev.vals[0], C(0), ev.vals[1])); return [(st, ev.recv)]
            if ev.short == "flush": return [(st, ev.recv)]
        if ev.name == "std::endl":
            st = st.copy(); st.mon = st.mon + (10,); return [(st, ev.args[0])]
        return EventMon.on_call(self, A, st, ev)
