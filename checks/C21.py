"""The XPath 1.0 core function library."""
import itertools, math
from arx.prog import Program, Broken
from arx.absint import C, NULL, mk, Exc
from arx.report import Check
from arx.dom import Failed, guarded, merge
from arx.tree import lit
from arx.cont import seq
from arx.strs import strval, uncast
from arx import xp
from arx.xp import XWorld, XPMon, judge, assignments, number, NAN, INF, NSX, fval
from checks.C20 import DOC, PMon, PWorld
from checks.C16 import Model

# name -> (least arguments, most)
ARITY = {"last": (0, 0), "position": (0, 0), "count": (1, 1), "local-name": (0, 1), "namespace-uri": (0, 1), "name": (0, 1), "string": (0, 1), "concat": (2, 99),
         "starts-with": (2, 2), "contains": (2, 2), "substring-before": (2, 2), "substring-after": (2, 2), "substring": (2, 3), "string-length": (0, 1),
         "normalize-space": (0, 1), "translate": (3, 3), "boolean": (1, 1), "not": (1, 1), "true": (0, 0), "false": (0, 0), "number": (0, 1), "sum": (1, 1),
         "floor": (1, 1), "ceiling": (1, 1), "round": (1, 1)}
TYPES = {"BOOL": ("starts-with", "contains", "boolean", "not", "true", "false"), "NUMBER": ("last", "position", "count", "string-length", "number", "sum", "floor", "ceiling", "round")}
NUMBERS = [NAN, INF, -INF, 0.0, -0.0] + [s * x for x in (5e-324, 0.25, 0.49999999999999994, 0.5, 0.5000000000000001, 0.75, 1.0, 1.25, 1.5, 2.0, 2.4999999999999996, 2.5, 3.5, 1e9 + 0.5,
           4503599627370495.5, 4503599627370497.0, 9007199254740991.0, 9007199254740993.0, 1e20, 1.7976931348623157e308) for s in (1, -1)]


def xround(x):
    """the integer closest to x; of two the larger one; -0 from -0.5 up to -0"""
    if x != x or math.isinf(x): return x
    f = math.floor(x)
    r = f if x - f < 0.5 else f + 1
    return math.copysign(float(r), x) if r == 0 else float(r)


def substring(s, a, b=None):
    """XPath 1.0, 4.2: the characters whose position is at least round(a) and less than round(a) + round(b)"""
    a = xround(a)
    e = None if b is None else a + xround(b)
    return "".join(x for i, x in enumerate(s, 1) if i >= a and (e is None or i < e))


def translate(s, f, t):
    out = ""
    for x in s:
        k = f.find(x)
        if k < 0: out += x
        elif k < len(t): out += t[k]
    return out


class FMon(PMon):
    """strings of unknown characters, whose positions refer to the string object"""
    maxlen = 60

    def put_chars(self, cs):
        if all(c.k == "c" for c in cs): return mk("s", "".join(chr(c.a[0]) for c in cs))
        return mk("seq", *cs)

    def str_call(self, A, st, ev):
        short, r = ev.short, ev.recv
        if ev.kind == "ctor" and "basic_string" in (ev.name or "") and len(ev.args) >= 2:
            i, j = self.strit(st, ev.args[0]), self.strit(st, ev.args[1])
            if i is not None and j is not None and i.a[0] is j.a[0]:
                cs = self.chars(A, st, i.a[0])
                if cs is not None:
                    if not 0 <= i.a[1] <= j.a[1] <= len(cs): raise Failed("a string is made from a range of characters", ev.where)
                    return [(st, self.put_chars(cs[i.a[1]:j.a[1]]))]
        if ev.kind != "ctor" and r is not None and self.str_is(ev):
            v = strval(A.load(st, r)); cs = self.chars(A, st, v)
            if cs is not None and (v.k == "seq" or short in ("find", "substr", "append", "operator+=", "push_back")):
                place = r.k in ("L", "T", "F", "p", "elem", "G")
                if not ev.vals and place and short in ("begin", "cbegin"): return [(st, mk("strit", r, 0))]
                if not ev.vals and place and short in ("end", "cend"): return [(st, mk("strit", r, len(cs)))]
                if short in ("operator[]", "at") and ev.vals[0].k == "c" and 0 <= ev.vals[0].a[0] < len(cs) and place:
                    return [(st, mk("chel", r, ev.vals[0].a[0]))]
                if short == "substr":
                    a = [uncast(x) for x in ev.vals]
                    if any(x.k == "f" for x in a):
                        return [(st, Exc(None, "undefined conversion to an integer", None, ev.where))]
                    if all(x.k == "c" for x in a):
                        p = a[0].a[0] % 2 ** 64 if a else 0; n = a[1].a[0] % 2 ** 64 if len(a) > 1 else 2 ** 64
                        if p > len(cs): return [(st, Exc(None, "std::out_of_range", None, ev.where))]
                        return [(st, self.put_chars(cs[p:p + n]))]
                if short in ("append", "operator+=", "operator=", "assign") and len(ev.args) == 1:
                    ds = [ev.vals[0]] if self.isint(ev, 0) else self.chars(A, st, ev.args[0])
                    if ds is not None:
                        s = st.copy(); s.store[r] = self.put_chars((cs if short in ("append", "operator+=") else []) + ds)
                        return [(s, r)]
                if short in ("append", "assign") and len(ev.args) == 2:
                    i, j = self.strit(st, ev.args[0]), self.strit(st, ev.args[1])
                    ds = self.chars(A, st, i.a[0]) if i is not None and j is not None and i.a[0] is j.a[0] else None
                    if ds is not None:
                        s = st.copy(); s.store[r] = self.put_chars((cs if short == "append" else []) + ds[i.a[1]:j.a[1]])
                        return [(s, r)]
                if short == "push_back":
                    s = st.copy(); s.store[r] = self.put_chars(cs + [ev.vals[0]])
                    return [(s, mk("void"))]
                if short == "erase" and 1 <= len(ev.args) <= 2 and place:
                    i = self.strit(st, ev.args[0]); j = self.strit(st, ev.args[1]) if len(ev.args) > 1 else i and mk("strit", i.a[0], i.a[1] + 1)
                    if i is not None and j is not None and i.a[0] is r and j.a[0] is r:
                        if not 0 <= i.a[1] <= j.a[1] <= len(cs): raise Failed("what is erased lies in the string", ev.where)
                        s = st.copy(); s.store[r] = self.put_chars(cs[:i.a[1]] + cs[j.a[1]:])
                        return [(s, i)]
                    a = [uncast(x) for x in ev.vals]
                    if all(x.k == "c" for x in a):
                        p = a[0].a[0] % 2 ** 64; n = a[1].a[0] % 2 ** 64 if len(a) > 1 else 2 ** 64
                        s = st.copy(); s.store[r] = self.put_chars(cs[:p] + cs[p + n:])
                        return [(s, r)]
                if short in ("find", "compare") and ev.args:
                    ds = [ev.vals[0]] if self.isint(ev, 0) else self.chars(A, st, ev.args[-1 if short == "compare" else 0])
                    a = [uncast(x) for x in (ev.vals[:-1] if short == "compare" else ev.vals[1:])]
                    if ds is not None and all(x.k == "c" for x in a):
                        if short == "find" and len(a) <= 1:
                            start = a[0].a[0] if a else 0
                            out = []; states = [st]
                            for i in range(start, len(cs) - len(ds) + 1):
                                nxt = []
                                for s in states:
                                    for s2, eq in self.equal(A, s, cs[i:i + len(ds)], ds):
                                        if eq: out.append((s2, C(i)))
                                        else: nxt.append(s2)
                                states = nxt
                            return out + [(s, C(2 ** 64 - 1)) for s in states]
                        if short == "compare" and len(a) in (0, 2):
                            xs = cs[a[0].a[0]:a[0].a[0] + a[1].a[0]] if a else cs
                            if len(xs) == len(ds): return [(s, C(0) if eq else C(1)) for s, eq in self.equal(A, st, xs, ds)]
                            return [(st, C(1 if len(xs) > len(ds) else -1))]
        if short in ("operator==", "operator!=") and r is None and len(ev.args) == 2:
            a, b = (self.chars(A, st, x) if self.isstr(ev, i) else None for i, x in enumerate(ev.args))
            if a is not None and b is not None:
                want = short == "operator=="
                if len(a) != len(b): return [(st, C(not want))]
                return [(s, C(eq == want)) for s, eq in self.equal(A, st, a, b)]
        return super().str_call(A, st, ev)

    def equal(self, A, st, xs, ys):
        out = []; states = [st]
        for x, y in zip(xs, ys):
            nxt = []
            for s in states:
                for b in (True, False):
                    s2 = s.copy()
                    if A.assume(s2, C(x is y) if x is y or x.k == y.k == "c" else A.compare(s2, "==", x, y), b):
                        if b: nxt.append(s2)
                        else: out.append((s2, False))
            states = nxt
        return out + [(s, True) for s in states]

    def on_call(self, A, st, ev):
        if ev.recv is not None and ev.recv.k == "N" and ev.recv.a[0].startswith("resolver.") and ev.kind == "call":
            if ev.short != "resolveFunction": raise Broken("a resolver is asked for " + ev.short)
            s = st.copy(); s.mon = s.mon + (("resolve",) + tuple(self.known(A, st, x) for x in ev.args[:2]) + (A.load(st, ev.args[2]),),)
            return [(s, mk("N", "function") if ev.recv.a[0] == "resolver.knows" else NULL)]
        if ev.recv is not None and ev.recv.k == "N" and ev.recv.a[0] == "function" and ev.kind == "call":
            if ev.short == "type": return [(st, C(self.kinds["NUMBER"]))]
            s = st.copy(); s.mon = s.mon + (("called", ev.short) + tuple(ev.args),)
            return [(s, self.answers["function"])]
        if ev.name == "Arabica::XML::is_space" and len(ev.vals) == 1 and uncast(ev.vals[0]).k != "c":
            x = uncast(ev.vals[0]); t = mk("isspace", x); A.tyof[t] = "bool"
            return [(st, t)]
        return super().on_call(A, st, ev)

    def isint(self, ev, i):
        return ev.vals[i].k != "seq" and super().isint(ev, i)


def partitions(xs):
    """every way the unknown characters can be equal to each other"""
    def go(i, k):
        if i == len(xs): yield []; return
        for j in range(k + 1):
            for rest in go(i + 1, max(k, j + 1)): yield [j] + rest
    for p in go(0, 0):
        yield dict(zip(xs, (ord("a") + j for j in p)))


def text(v, m):
    v = strval(v)
    if v.k == "seq": return "".join(chr(xp.evaluate(uncast(x), m)) for x in v.a)
    return xp.evaluate(v, m)


@guarded
def check():
    c = Check("C21", "proof", "each function of the library found by its name and called on operands: strings of unknown characters (every length up to a bound, every pattern of "
              "equal characters), numbers of every rounding class, node-sets of nodes of every kind; results compared with XPath 1.0, section 4")
    P = Program(["dom", "xpath"])
    W = PWorld(P, FMon()); W.mon.world = W
    W.mon.kinds = W.types; W.mon.fns = {}; W.mon.answers = {}
    made = {}
    doc, st = W.new_document()
    for s in DOC: st = W.plant(st, doc, doc, s, made)
    made["doc"] = doc
    M = Model("doc", DOC)
    W.mon.label = {v: k for k, v in made.items()}
    W.mon.addresses = lambda v: v.n
    proxies = {}
    for n in made: proxies[n], st = W.proxy(st, made[n], "proxy." + n)
    env, outs = W.obj(st, NSX + "ExecutionContext", "execution", pick=lambda f: not f.params)
    st = merge([o.st for o in outs if o.kind == "ret"])
    rexpr = W.record(NSX + "XPathExpression")
    rres = P.one_rec(NSX + "StandardXPathFunctionResolver")
    where = rres.get("loc", "")
    std = [P.fns[m["id"]] for m in P.methods(rres["id"]) if m["id"] in P.fns and P.fns[m["id"]].name.endswith("::standardFunction")]
    if len(std) != 1: raise Broken("standardFunction")
    cases = 0

    def wrap(st, op, name):
        n, outs = W.obj(st, NSX + "XPathExpression", name, op, pick=lambda f: len(f.params) == 1 and "XPathExpression_impl<" in f.params[0]["ty"] and f.params[0]["ty"].rstrip().endswith("*"))
        ok = [o for o in outs if o.kind == "ret"]
        if len(ok) != 1: raise Broken("XPathExpression cannot be made")
        return n, ok[0].st

    def arguments(st, args):
        """vector of expressions with the values"""
        xs = []
        for i, (kind, x) in enumerate(args):
            op, st = W.operand(st, "arg%d" % i, kind, x)
            e, st = wrap(st, op, "expr%d" % i); xs.append(mk("o", e))
        v = mk("N", "arguments"); st = st.copy(); st.store[v] = seq(*xs)
        return v, st

    def find(st, ns, name, v):
        return W.engine_run(std[0], None, [lit(ns), lit(name), v], st)

    def call(name, args, ctx="e1", st=st, env=env):
        """outcomes of a call: (state, kind of the result, its value object)"""
        v, s = arguments(st, args)
        outs = find(s, "", name, v)
        ok = [o for o in outs if o.kind == "ret"]
        if len(outs) != 1 or not ok or ok[0].val is NULL: raise Failed("%s() can be called" % name, where, "; ".join(str(o.exc or o.val) for o in outs)[:200])
        fn = ok[0].val
        f = [P.fns[m["id"]] for m in P.method(W.exact[fn], "evaluate", 2) if m["id"] in P.fns]
        if len(f) != 1: raise Broken("evaluate of %s" % name)
        outs = W.engine_run(f[0], fn, [proxies[ctx], env], ok[0].st)
        for k in W.A.opaque:
            if k.startswith("Arabica::") and "~" not in k: raise Broken("%s is not analysed inside %s" % (k, name))
        return outs, fn

    KIND = {v: k for k, v in W.types.items()}

    def answer(o):
        W.exact.setdefault(o.val, None)
        kind = KIND[W.get(o.st, o.val, "type").a[0]]
        op = {"BOOL": "asBool", "NUMBER": "asNumber", "STRING": "asString"}[kind]
        keep = W.mon.init
        q = W.call(o.st, o.val, op)
        if len(q) != 1 or q[0].kind != "ret": raise Failed("the value of a function can be read", where, str(q)[:200])
        v = strval(q[0].val) if kind == "STRING" else q[0].val
        return kind, (W.A.load(q[0].st, v) if kind == "STRING" and v.k not in ("s", "seq", "str", "cat", "sub") else v)

    def results(name, args, models, want, kind, what=None, **k):
        """every path of a call gives what is wanted under every assignment which leads to it"""
        what = what or "%s(%s)" % (name, ", ".join(show(x) for x in args))
        outs, fn = call(name, args, **k)
        pre = []
        for o in outs:
            if o.kind != "ret":
                pre.append((o, None, None)); continue
            kk, v = answer(o)
            c.ob("%s gives a %s" % (name, kind), kk == kind, where, kk)
            pre.append((o, kk, v))
            asked = [m for m in o.st.mon if m[0] == "asked"]
            c.ob("%s evaluates its arguments where it is called" % name, all(m[2] is proxies[k.get("ctx", "e1")] for m in asked), where, str(asked)[:200])
        t = W.get(outs[0].st, fn, "type") if outs else None
        c.ob("%s is known to give a %s" % (name, kind), t is C(W.types[kind]), where, str(t))
        bad = None
        for m in models:
            w = want(m); found = False
            for o, kk, v in pre:
                if not xp.consistent(xp.conditions(o.st, set(m)), m): continue
                found = True
                if o.kind != "ret": bad = "%s: %s, expected %r" % (pretty(m), o.exc, w); break
                g = text(v, m) if kk == "STRING" else xp.evaluate(uncast(v) if kk != "NUMBER" else v, m)
                if not (bool(g) == w if kind == "BOOL" else xp.same(float(g), float(w)) if kind == "NUMBER" else g == w):
                    bad = "%s: %r, expected %r" % (pretty(m), g, w); break
            if not found: bad = bad or "%s: no answer" % pretty(m)
            if bad: break
        c.ob("%s is what XPath says" % what, bad is None, where, bad or "")
        return outs

    def show(a):
        kind, x = a
        if kind == "NODE_SET": return "{%d nodes}" % len(x)
        return repr(x.a[0]) if x.k in ("s", "f", "c") else "%d characters" % len(x.a) if x.k == "seq" else str(x.a[0])

    def pretty(m):
        return ", ".join("%s=%r" % (t.a[0], chr(v) if isinstance(v, int) and v >= 32 else v) for t, v in m.items())

    def chars(name, n):
        xs = [mk("numvar", "%s%d" % (name, i)) for i in range(n)]
        for x in xs: W.tyof[x] = "char"
        return xs

    def S(xs):
        return ("STRING", mk("seq", *xs) if xs else lit(""))
    of = lambda xs: (lambda m: "".join(chr(m[x]) for x in xs))

    # names and numbers of arguments
    jobs = [(n, k) for n in ARITY for k in range(5)]

    def arity(j):
        n, k = j
        lo, hi = ARITY[n]
        v, s = arguments(st, [("STRING", lit("1"))] * k)
        outs = find(s, "", n, v)
        ok = len(outs) == 1 and (outs[0].kind == "ret" and outs[0].val is not NULL if lo <= k <= hi else
                                 outs[0].kind == "throw" and "SyntaxException" in str(outs[0].exc))
        c.ob("%s with %d arguments is %s" % (n, k, "a function" if lo <= k <= hi else "a syntax error"), ok, where, "; ".join(str(o.exc or o.val) for o in outs)[:200])
    c.spread(jobs, arity, W); cases += len(jobs)

    # strings
    jobs = [(f, a, b) for f in ("starts-with", "contains", "substring-before", "substring-after") for a in range(5) for b in range(4) if a + b <= 6]
    F = {"starts-with": ("BOOL", lambda a, b: a.startswith(b)), "contains": ("BOOL", lambda a, b: b in a),
         "substring-before": ("STRING", lambda a, b: a[:a.find(b)] if b in a else ""), "substring-after": ("STRING", lambda a, b: a[a.find(b) + len(b):] if b in a else "")}

    def two(j):
        f, a, b = j
        xs, ys = chars("a", a), chars("b", b)
        kind, g = F[f]
        results(f, [S(xs), S(ys)], list(partitions(xs + ys)), lambda m: g(of(xs)(m), of(ys)(m)), kind)
    c.spread(jobs, two, W); cases += len(jobs)

    jobs = [(a, b, d) for a in range(4) for b in range(4) for d in range(4) if a + b <= 5 and a + b + d <= 7]

    def three(j):
        xs, ys, zs = chars("a", j[0]), chars("b", j[1]), chars("c", j[2])
        results("translate", [S(xs), S(ys), S(zs)], list(partitions(xs + ys + zs)), lambda m: translate(of(xs)(m), of(ys)(m), of(zs)(m)), "STRING")
    c.spread(jobs, three, W); cases += len(jobs)

    def one(j):
        f, a = j
        xs = chars("a", a)
        if f == "string-length": results(f, [S(xs)], list(partitions(xs)), lambda m: a, "NUMBER")
        elif f == "normalize-space":
            results(f, [S(xs)], [dict(zip(xs, map(ord, v))) for v in itertools.product(" \nxy" if a < 6 else " x", repeat=a)], lambda m: " ".join(x for x in of(xs)(m).replace("\n", " ").split(" ") if x), "STRING")
        else: results(f, [S(xs)], list(partitions(xs)), of(xs), "STRING")
    jobs = [("string-length", a) for a in range(5)] + [("normalize-space", a) for a in range(7)] + [("string", a) for a in range(4)]
    c.spread(jobs, one, W); cases += len(jobs)
    for n in (2, 3, 4):
        us = [mk("str", "u%d" % i) for i in range(n)]
        results("concat", [("STRING", u) for u in us], [dict(zip(us, v)) for v in itertools.product(("", "a", "bc"), repeat=n)], lambda m: "".join(m[u] for u in us), "STRING", "concat of %d" % n)
        cases += 1

    # substrings: the characters are unknown, the numbers of every rounding class
    STARTS = [NAN, INF, -INF, -0.0, 0.4, 0.5, 1.0, 1.4, 1.5, 2.5, 3.0, 4.0, 5.0, 6.0, 6.5, -3.0, -0.5, 2147483647.0, 2147483649.0, 4294967297.0, 1e19, -1e19]
    jobs = [(n, a, b) for n in (0, 1, 3, 4) for a in STARTS for b in [None] + ([NAN, INF, -INF, 0.0, 0.5, 1.0, 1.5, 2.0, 7.0, -2.0, 4294967297.0, 1e19, 2.6] if n in (0, 4) else [1.0])]

    def subs(j):
        n, a, b = j
        xs = chars("a", n)
        results("substring", [S(xs), ("NUMBER", fval(a))] + ([] if b is None else [("NUMBER", fval(b))]), [{x: ord("a") + i for i, x in enumerate(xs)}],
                lambda m: substring(of(xs)(m), a, b), "STRING", "substring(%d characters, %s%s)" % (n, a, "" if b is None else ", %s" % b))
    c.spread(jobs, subs, W); cases += len(jobs)

    # numbers
    def numeric(j):
        f, x = j
        w = {"round": xround, "floor": lambda v: v if v != v or math.isinf(v) else math.copysign(math.floor(v), v) if math.floor(v) == 0 else float(math.floor(v)),
             "ceiling": lambda v: v if v != v or math.isinf(v) else math.copysign(math.ceil(v), v) if math.ceil(v) == 0 else float(math.ceil(v)), "number": lambda v: v}[f](x)
        results(f, [("NUMBER", fval(x))], [{}], lambda m: w, "NUMBER", "%s(%r)" % (f, x))
    jobs = [(f, x) for f in ("round", "floor", "ceiling", "number") for x in NUMBERS]
    c.spread(jobs, numeric, W); cases += len(jobs)
    u = mk("truth", "u"); W.tyof[u] = "bool"
    for f, g in (("boolean", lambda m: bool(m[u])), ("not", lambda m: not m[u])):
        results(f, [("BOOL", u)], [{u: 0}, {u: 1}], g, "BOOL")
    for f, v in (("true", True), ("false", False)): results(f, [], [{}], lambda m: v, "BOOL")
    for f, kind, x, w in (("number", "STRING", lit(" 12.5 "), 12.5), ("number", "STRING", lit("x"), NAN), ("number", "BOOL", C(1), 1.0), ("number", "NODE_SET", [proxies["@z"]], 3.0),
                          ("boolean", "STRING", lit("false"), True), ("boolean", "STRING", lit(""), False), ("boolean", "NUMBER", fval(NAN), False), ("boolean", "NODE_SET", [], False),
                          ("boolean", "NODE_SET", [proxies["@z"]], True), ("not", "NUMBER", fval(0), True), ("not", "NODE_SET", [proxies["r"]], False),
                          ("string", "BOOL", C(1), "true"), ("string", "BOOL", C(0), "false"), ("string", "NODE_SET", [], ""), ("string", "NODE_SET", [proxies["@z"], proxies["e1"]], "b"),
                          ("string-length", "BOOL", C(0), 5.0), ("string", "NUMBER", fval(NAN), "NaN"), ("normalize-space", "NODE_SET", [proxies["t1"]], "a")):
        results(f, [(kind, x)], [{}], lambda m: w, {"number": "NUMBER", "boolean": "BOOL", "not": "BOOL", "string-length": "NUMBER"}.get(f, "STRING"))
        cases += 1

    # node-sets
    order = ["doc", "c0", "r", "@x", "@y", "@ns", "t1", "e1", "@z", "g1", "g2", "g3", "t2", "p1", "p2", "c1", "e2", "@w", "h1", "t3", "h2", "e3", "p3"]
    NAMES = {"r": ("r", "", "r"), "@x": ("x", "", "x"), "@y": ("y", "urn:p", "p:y"), "@ns": ("p", "http://www.w3.org/2000/xmlns/", "xmlns:p"), "e1": ("e", "", "e"), "g1": ("e", "urn:p", "p:e"),
             "p1": ("pi", "", "pi"), "@w": ("e", "urn:q", "q:e"), "e2": ("g", "urn:p", "p:g"), "e3": ("e", "urn:q", "e"), "p3": ("pi", "", "pi")}
    SETS = [[x] for x in order if x not in ("@ns",)] + [[], ["e2", "@y"], ["h2", "g1", "e3"], ["p3", "t3", "e1", "e1"]]

    def named(labs):
        first = min(labs, key=order.index) if labs else None
        e = {"e": ("e", "", "e")}
        w = NAMES.get(first) or {"@z": ("e", "", "e"), "g2": ("g", "", "g"), "g3": ("e", "", "e"), "h1": ("e", "", "e"), "h2": ("e", "", "e"), "p2": ("qi", "", "qi")}.get(first, ("", "", ""))
        for i, f in enumerate(("local-name", "namespace-uri", "name")):
            what = "%s({%s})" % (f, ", ".join(labs))
            results(f, [("NODE_SET", [proxies[x] for x in labs])], [{}], lambda m: w[i], "STRING", what)
            if len(labs) == 1: results(f, [], [{}], lambda m: w[i], "STRING", "%s() at %s" % (f, labs[0]), ctx=labs[0])
    c.spread(SETS, named, W); cases += 6 * len(SETS)

    def counted(labs):
        results("count", [("NODE_SET", [proxies[x] for x in labs])], [{}], lambda m: len(labs), "NUMBER", "count of %d nodes" % len(labs))
        v = {"@x": 1.0, "@y": 2.0, "@z": 3.0, "@w": 4.0}
        results("sum", [("NODE_SET", [proxies[x] for x in labs])], [{}], lambda m: sum((v.get(x, NAN) for x in labs), 0.0), "NUMBER", "sum over {%s}" % ", ".join(labs))
    jobs = [[], ["@x"], ["@x", "@y"], ["@w", "@z", "@x"], ["@x", "e1", "@y"], ["t1"], ["@z", "@w", "@y", "@x"]]
    c.spread(jobs, counted, W); cases += 2 * len(jobs)
    for f, w in (("string", "b"), ("string-length", 1.0), ("normalize-space", "b"), ("number", NAN)):
        results(f, [], [{}], lambda m: w, "NUMBER" if isinstance(w, float) else "STRING", "%s() at e1" % f, ctx="e1")
    for f, w in (("string", "3"), ("string-length", 1.0), ("normalize-space", "3"), ("number", 3.0)):
        results(f, [], [{}], lambda m: w, "NUMBER" if isinstance(w, float) else "STRING", "%s() at @z" % f, ctx="@z")
    for pos, last in ((1, 1), (2, 5), (70000, 100000)):
        e2 = mk("N", "execution%d" % pos); W.exact[e2] = W.exact[env]
        s = st.copy()
        for k, v in list(st.store.items()):
            if k.k == "F" and k.a[0] is env: s.store[mk("F", e2, k.a[1])] = v
        for op, v in (("setPosition", pos), ("setLast", last)): s = merge([o.st for o in W.call(s, e2, op, C(v)) if o.kind == "ret"])
        results("position", [], [{}], lambda m: pos, "NUMBER", "position() at %d of %d" % (pos, last), st=s, env=e2)
        results("last", [], [{}], lambda m: last, "NUMBER", "last() at %d of %d" % (pos, last), st=s, env=e2)
        cases += 2
    # functions found by name
    hold = P.one_rec(NSX + "impl::FunctionHolder"); whold = hold.get("loc", "")
    create = [P.fns[m["id"]] for m in P.methods(hold["id"]) if m["id"] in P.fns and P.fns[m["id"]].name.endswith("::createFunction")]
    if len(create) != 1: raise Broken("createFunction")
    fnval, st5 = W.value(st, "NUMBER", "function.value", fval(42.0)); W.mon.answers["function"] = fnval

    def resolved(j):
        ns, name, nargs, who = j
        what = "{%s}%s with %d arguments" % (ns, name, nargs)
        v, s = arguments(st5, [("STRING", lit("x"))] * nargs)
        r = mk("N", "resolver." + who)
        cx, outs = W.obj(s, NSX + "impl::CompilationContext", "compilation", mk("N", "xpath"), mk("N", "namespaces"), r, mk("N", "variables"), pick=lambda f: len(f.params) == 4)
        s = outs[0].st
        outs = W.engine_run(create[0], None, [lit(ns), lit(name), v, cx], s)
        if len(outs) != 1: raise Failed(what + " is resolved", whold, "%d outcomes" % len(outs))
        o = outs[0]; asked = [m for m in o.st.mon if m[0] == "resolve"]
        std = ns == "" and name in ARITY
        if std:
            lo, hi = ARITY[name]
            c.ob("%s is the standard function" % what, not asked and (o.kind == "ret" and o.val is not NULL if lo <= nargs <= hi else o.kind == "throw" and "Syntax" in str(o.exc)), whold, str(o)[:200])
            return
        c.ob("%s is asked of the resolver by name, namespace and arguments" % what, [m[1:3] for m in asked] == [(ns, name)] and len(asked[0][3].a) == nargs, whold, str(asked)[:200])
        if who == "nothing":
            c.ob("%s is an error when nobody knows it" % what, o.kind == "throw" and "UndefinedFunctionException" in str(o.exc), whold, str(o.exc or o.val))
            return
        if o.kind != "ret": raise Failed(what + " is what the resolver gave", whold, str(o.exc))
        c.ob("%s has the type of what the resolver gave" % what, W.get(o.st, o.val, "type") is C(W.types["NUMBER"]), whold)
        q = W.engine_run([g for g in (P.fns[m["id"]] for m in P.method(W.exact[o.val], "evaluate", 2) if m["id"] in P.fns) if "DOM::Node<" in g.params[0]["ty"]][0], o.val, [proxies["g1"], env], o.st)
        calls = [m for m in q[0].st.mon if m[0] == "called"] if len(q) == 1 else None
        c.ob("%s is called with the context it is evaluated in" % what, calls is not None and len(calls) == 1 and calls[0][1] == "evaluate" and calls[0][2] is proxies["g1"] and calls[0][3] is env, whold, str(calls)[:200])
        if len(q) == 1 and q[0].kind == "ret":
            W.exact.setdefault(q[0].val, W.record(NSX + "XPathValue"))
            c.ob("%s gives the value the function gave" % what, W.get(q[0].st, q[0].val, "asNumber") is fval(42.0), whold)
    jobs = [(ns, n, k, who) for ns in ("", "urn:x") for n in ("concat", "mine", "true", "Concat", "concat ", "") for k in (0, 2) for who in ("knows", "nothing")]
    c.spread(jobs, resolved, W); cases += len(jobs)
    c.floor("cases", cases, 500)
    c.stat("cases", cases); c.stat("runs", W.runs); c.stat("paths", W.paths)
    return c.finish()
