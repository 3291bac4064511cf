"""Documents of known shape, built through the public operations of the DOM implementation."""
from .prog import Broken
from .absint import C, NULL, mk
from .dom import World, WorldMon, Failed, merge
from .strs import StrIter, strval


def lit(x):
    return mk("s", x)


class TreeMon(StrIter, WorldMon):
    """names are literals, so character classification is decided; other nodes and strings are as in the parents"""
    roots = ("::SimpleDOM::", "::DOM::", "string_adaptor")

    def load(self, A, st, loc):
        if loc.k == "F" and loc.a[1] in ("first", "second"):
            v = st.store.get(loc.a[0])
            if v is not None and v.k == "pair":
                return v.a[loc.a[1] == "second"]
        return super().load(A, st, loc)

    def inline(self, A, fn, ev):
        return any(r in fn.name for r in self.roots)

    def distinct(self, A, st, x, y):
        return x is not y

    def on_call(self, A, st, ev):
        if ev.name == "std::make_pair" and len(ev.vals) == 2:
            return [(st, mk("pair", *ev.vals))]
        if ev.name.startswith("Arabica::XML::is_") and len(ev.vals) == 1:
            return [(st, C(1))]
        r = self.str_call(A, st, ev)
        return r if r is not None else WorldMon.on_call(self, A, st, ev)


class Trees(World):
    def learn(self):
        for t, r in self.A.exact.items():
            self.exact.setdefault(t, r)

    def loaded(self, st, v):
        return self.engine().load(st, v) if v.k in ("F", "L", "T", "I", "insel", "el", "G", "mkey") else v

    def make(self, st, obj, op, *args):
        outs = self.call(st, obj, op, *args); self.learn()
        ok = [o for o in outs if o.kind == "ret" and o.val in self.exact]
        if not ok or len({o.val for o in ok}) != 1:
            raise Failed("%s succeeds" % op, self.fn(obj, op, len(args)).loc, ", ".join("%s %s" % (o.val, o.exc) for o in outs))
        return ok[0].val, merge([o.st for o in ok])

    def text(self, st, n, obs):
        outs = self.call(st, n, obs)
        vs = {strval(self.loaded(o.st, o.val)) for o in outs if o.kind == "ret"}
        if len(vs) != 1 or any(o.kind != "ret" for o in outs):
            raise Broken("%s of %s: %s" % (obs, n, vs))
        return next(iter(vs))

    def kids(self, st, n):
        out = []; k = self.get(st, n, "getFirstChild")
        while k is not NULL and len(out) < 60:
            out.append(k); k = self.get(st, k, "getNextSibling")
        return out

    def new_document(self, name="doc", st=None):
        return self.build(st or self.start(), "DocumentImpl", name, None, 0)

    def plant(self, st, doc, parent, spec, made):
        """build what spec describes below parent (None: leave it detached); made: {label: node}

        spec: (kind, label, name or text[, attributes[, children]]); kind e: element, t: text, d: CDATA section, c: comment, p: PI,
        r: entity reference, f: fragment.  attributes: (label, namespace or None, name, value)"""
        kind, label, text = spec[:3]
        a = lambda x: x if not isinstance(x, str) else lit(x)
        if kind == "e":
            if isinstance(text, tuple):
                n, st = self.make(st, doc, "createElementNS", a(text[0]), a(text[1]))
            else:
                n, st = self.make(st, doc, "createElement", a(text))
            for al, ns, nm, v in (spec[3] if len(spec) > 3 else ()):
                if ns is None:
                    at, st = self.make(st, doc, "createAttribute", a(nm))
                else:
                    at, st = self.make(st, doc, "createAttributeNS", a(ns), a(nm))
                st = self.do(st, at, "setNodeValue", a(v))
                outs = [o for o in self.call(st, n, "setAttributeNode" if ns is None else "setAttributeNodeNS", at) if o.kind == "ret" and o.val is NULL]
                if not outs:
                    raise Failed("an attribute can be set", self.fn(n, "setAttributeNode", 1).loc)
                st = merge([o.st for o in outs])
                made[al] = at
            made[label] = n
            for ch in (spec[4] if len(spec) > 4 else ()):
                st = self.plant(st, doc, n, ch, made)
        elif kind == "f":
            n, st = self.make(st, doc, "createDocumentFragment")
            made[label] = n
            for ch in spec[4]:
                st = self.plant(st, doc, n, ch, made)
        elif kind == "p":
            n, st = self.make(st, doc, "createProcessingInstruction", a(text), a("data"))
        else:
            n, st = self.make(st, doc, {"t": "createTextNode", "d": "createCDATASection", "c": "createComment", "r": "createEntityReference"}[kind], a(text))
        made[label] = n
        if parent is not None:
            st = self.do(st, parent, "appendChild", n)
        return st

    # ---- objects of any class
    def record(self, full):
        return self.P.one_rec(full)["id"]

    def obj(self, st, full, name, *args, pick=None):
        """(object, states) after the constructor taking these arguments"""
        n = mk("N", name); rec = self.record(full)
        ks = [self.P.fns[m["id"]] for m in self.P.methods(rec) if m.get("kind") == "ctor" and m["id"] in self.P.fns]
        short = full.split("::")[-1].split("<")[0]
        ks = [f for f in ks if len([p for p in f.params]) >= len(args) and (pick(f) if pick else not (len(f.params) == 1 and short + "<" in f.params[0]["ty"]))]
        ks = [f for f in ks if len(f.params) == len(args)] or ks
        if not ks:
            raise Broken("no constructor of %s with %d arguments" % (full, len(args)))
        self.exact[n] = rec
        A = self.engine(); self.A = A
        s = st.copy(); s.mon = self.mon.init()
        outs = A.run(ks[0], this=n, args=list(args), st=s)
        self.runs += 1; self.paths += len(outs)
        self.learn()
        if not outs:
            raise Broken("no path through the constructor of %s" % full)
        return n, outs
