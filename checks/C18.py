"""XPath values: conversions, comparisons, arithmetic and logic."""
import itertools, math
from arx.prog import Program, Broken
from arx.absint import C, NULL, mk
from arx.report import Check
from arx.dom import Failed, guarded
from arx.tree import lit
from arx.strs import strval
from arx import xp
from arx.xp import XWorld, XPMon, judge, assignments, number, NAN, INF, NSX, fval

COMPARE = {"EqualsOperator": "=", "NotEqualsOperator": "!=", "LessThanOperator": "<", "LessThanEqualsOperator": "<=",
           "GreaterThanOperator": ">", "GreaterThanEqualsOperator": ">="}
REL = {"=": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b,
       ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}
ARITH = {"PlusOperator": lambda a, b: a + b, "MinusOperator": lambda a, b: a - b, "MultiplyOperator": lambda a, b: a * b,
         "DivideOperator": xp.fdiv, "ModOperator": xp.fmod}
NUMS = (NAN, -INF, -1.0, -0.0, 0.0, 0.5, 1.0, 2.0, INF)
STRS = ("", "a", "0", "1", "1.0", "2", "-1")
KINDS = ("BOOL", "NUMBER", "STRING", "NODE_SET")


def boolean(kind, v):
    if kind == "BOOL": return v
    if kind == "NUMBER": return v == v and v != 0
    if kind == "STRING": return v != ""
    return len(v) > 0


def num(kind, v):
    if kind == "BOOL": return 1.0 if v else 0.0
    if kind == "NUMBER": return v
    if kind == "STRING": return number(v)
    return number(v[0]) if v else NAN


def compare(op, lk, l, rk, r):
    """XPath 1.0, 3.4"""
    f = REL[op]; rel = op not in ("=", "!=")
    if lk == rk == "NODE_SET":
        return any(f(number(a), number(b)) if rel else f(a, b) for a in l for b in r)
    if "NODE_SET" in (lk, rk):
        if "BOOL" in (lk, rk):
            a, b = boolean(lk, l), boolean(rk, r)
            return f(float(a), float(b)) if rel else f(a, b)
        if lk == "NODE_SET":
            if rel or rk == "NUMBER": return any(f(number(a), num(rk, r)) for a in l)
            return any(f(a, r) for a in l)
        if rel or lk == "NUMBER": return any(f(num(lk, l), number(b)) for b in r)
        return any(f(l, b) for b in r)
    if rel: return f(num(lk, l), num(rk, r))
    if "BOOL" in (lk, rk): return f(boolean(lk, l), boolean(rk, r))
    if "NUMBER" in (lk, rk): return f(num(lk, l), num(rk, r))
    return f(l, r)


@guarded
def check():
    c = Check("C18", "proof", "every path of each operator and conversion on unknown numbers, strings and node string-values (node-sets of up to 3 nodes), "
              "judged against XPath 1.0 under every assignment from a pool with every order type (NaN, infinities, both zeros, numerals that differ as text)")
    P = Program(["dom", "xpath"])
    W = XWorld(P)
    doc, st0 = W.new_document()
    r, st0 = W.make(st0, doc, "createElement", lit("r"))
    st0 = W.do(st0, doc, "appendChild", r)
    nodes = {}; strs = {}
    for side in "lr":
        for i in range(3):
            s = strs[side, i] = mk("str", "%s%d" % (side, i))
            n, st0 = W.make(st0, doc, "createComment", s)
            st0 = W.do(st0, r, "appendChild", n)
            nodes[side, i], st0 = W.proxy(st0, n, "proxy.%s%d" % (side, i))
    ctx, st0 = W.proxy(st0, doc, "ctx")
    env = mk("N", "execution"); W.exact[env] = P.one_rec(NSX + "ExecutionContext")["id"]
    cases = 0

    def unknown(kind, side, n):
        """(argument for the value, pools, model -> python value)"""
        if kind == "NODE_SET":
            ss = [strs[side, i] for i in range(n)]
            return [nodes[side, i] for i in range(n)], {s: STRS for s in ss}, lambda m: [m[s] for s in ss]
        if kind == "BOOL":
            t = mk("truth", side); W.tyof[t] = "bool"
            return t, {t: (0, 1)}, lambda m: bool(m[t])
        if kind == "NUMBER":
            t = mk("numvar", side); W.tyof[t] = "double"
            return t, {t: NUMS}, lambda m: m[t]
        t = mk("str", side + "s")
        return t, {t: STRS}, lambda m: m[t]

    def sized():
        for k in KINDS:
            for n in range(4) if k == "NODE_SET" else (0,):
                yield k, n

    def pools(*ps):
        out = {}
        for p in ps: out.update(p)
        n = 1
        for v in out.values(): n *= len(v)
        if n > 20000:           # large sets: one text fewer, still numerals in every order
            out = {k: v if v is NUMS else [x for x in v if x not in ("-1", "1.0", "")] for k, v in out.items()}
        return out

    def boolval(outs):
        """truth value answered through a value object"""
        def f(o):
            impl = W.held(o.st, o.val)
            if impl is None or impl not in W.exact: raise Broken("result of an operator")
            q = W.call(o.st, impl, "asBool")
            if len(q) != 1: raise Broken("asBool of a result")
            return q[0].val
        return f

    # ---------------------------------------------------------------- conversions
    for kind, n in sized():
        if kind == "NODE_SET" and n > 1: continue               # document order is settled elsewhere
        x, ps, py = unknown(kind, "l", n)
        v, st = W.value(st0, kind, "v." + kind, x)
        label = "%s%s" % (kind.lower().replace("_", "-"), " of %d" % n if kind == "NODE_SET" else "")
        for op, want in (("asBool", lambda m: int(boolean(kind, py(m)))), ("asNumber", lambda m: num(kind, py(m)))):
            outs = W.call(st, v, op)
            d = judge(outs, assignments(ps), want)
            c.ob("%s as %s" % (label, {"asBool": "boolean", "asNumber": "number"}[op]), d is None, W.fn(v, op, 0).loc, d); cases += 1
        c.ob("type of %s" % label, W.get(st, v, "type") is C(W.types[kind]), W.fn(v, "type", 0).loc); cases += 1
        W.mon.adopted = []
        for o in W.call(st, v, "evaluate", ctx, env):
            impl = W.held(o.st, o.val) if o.kind == "ret" else None
            ok = impl is not None and impl in W.exact and W.get(o.st, impl, "type") is C(W.types[kind])
            c.ob("%s evaluated is a value of the same type" % label, ok, W.fn(v, "evaluate", 2).loc)
            if ok:
                for op, want in (("asBool", lambda m: int(boolean(kind, py(m)))), ("asNumber", lambda m: num(kind, py(m)))):
                    d = judge(W.call(o.st, impl, op), assignments(ps), want)
                    c.ob("%s evaluated, as %s" % (label, op), d is None, W.fn(v, "evaluate", 2).loc, d); cases += 1
        bad = [x for x, w in W.mon.adopted if x.k != "new"]
        c.ob("%s: its evaluation is a value of its own" % label, not bad, W.fn(v, "evaluate", 2).loc, "%s would be owned twice" % bad)
        W.mon.adopted = None
        outs = W.call(st, v, "asString")
        got = {strval(W.loaded(o.st, o.val)) for o in outs}
        if kind == "STRING" or n == 1:
            want = {x if kind == "STRING" else strs["l", 0]}
            c.ob("%s as string" % label, got == want, W.fn(v, "asString", 0).loc, str(got)); cases += 1
        elif kind == "NODE_SET":
            c.ob("%s as string" % label, got == {lit("")}, W.fn(v, "asString", 0).loc, str(got)); cases += 1
        ns = [o.val for o in W.call(st, v, "asNodeSet")]
    for b, w in ((1, "true"), (0, "false")):
        v, st = W.value(st0, "BOOL", "v.b%d" % b, C(b))
        got = {strval(W.loaded(o.st, o.val)) for o in W.call(st, v, "asString")}
        c.ob("%s as string" % w, got == {lit(w)}, W.fn(v, "asString", 0).loc, str(got)); cases += 1
    for x, w in ((NAN, "NaN"), (INF, "Infinity"), (-INF, "-Infinity"), (0.0, "0"), (-0.0, "0")):
        v, st = W.value(st0, "NUMBER", "v.n", fval(x))
        got = {strval(W.loaded(o.st, o.val)) for o in W.call(st, v, "asString")}
        c.ob("the number %r as string" % x, got == {lit(w)}, W.fn(v, "asString", 0).loc, "%s, expected %s" % (got, w)); cases += 1
    # texts that are numbers, and texts that are not
    for s in ("", " ", "0", "1", "12", "-1", "1.5", "-1.5", ".5", "-.5", "5.", " 7 ", "\n3\t", "007", "+1", "1e3", "1E3", "1e-3", "0x10", "inf", "-inf", "INF", "nan",
              "NaN", "-nan", "Infinity", "-Infinity", "infinity", "-", ".", "-.", "--1", "1-", "1.2.3", "1 2", "- 1", "1,5", "abc", "1a", "1f", "1d", "$1"):
        v, st = W.value(st0, "STRING", "v.t", lit(s))
        d = judge(W.call(st, v, "asNumber"), [{}], lambda m: number(s))
        c.ob("the text %r as number" % s, d is None, W.fn(v, "asNumber", 0).loc, d); cases += 1

    # ---------------------------------------------------------------- comparisons
    for cls, op in COMPARE.items():
        for (lk, ln), (rk, rn) in itertools.product(sized(), sized()):
            if ln + rn > 4: continue
            x, p1, lv = unknown(lk, "l", ln); y, p2, rv = unknown(rk, "r", rn)
            L, st = W.operand(st0, "L", lk, x); R, st = W.operand(st, "R", rk, y)
            e, st = W.expression(st, cls, "cmp", L, R)
            outs = W.call(st, e, "evaluate", ctx, env)
            d = judge(outs, assignments(pools(p1, p2)), lambda m: int(compare(op, lk, lv(m), rk, rv(m))), boolval(outs))
            c.ob("%s%s %s %s%s" % (lk, ln if lk == "NODE_SET" else "", op, rk, rn if rk == "NODE_SET" else ""), d is None, W.fn(e, "evaluate", 2).loc, d)
            cases += 1
            if (lk, rk) == ("NUMBER", "STRING"):
                c.ob("%s is a boolean" % op, W.get(st, e, "type") is C(W.types["BOOL"]), W.fn(e, "type", 0).loc)
    # ---------------------------------------------------------------- arithmetic
    for cls, f in list(ARITH.items()):
        for lk, rk in itertools.product(KINDS, KINDS):
            x, p1, lv = unknown(lk, "l", 1); y, p2, rv = unknown(rk, "r", 1)
            L, st = W.operand(st0, "L", lk, x); R, st = W.operand(st, "R", rk, y)
            e, st = W.expression(st, cls, "ar", L, R)
            d = judge(W.call(st, e, "evaluateAsNumber", ctx, env), assignments(pools(p1, p2)), lambda m: f(num(lk, lv(m)), num(rk, rv(m))))
            c.ob("%s of %s and %s" % (cls, lk, rk), d is None, W.fn(e, "evaluateAsNumber", 2).loc, d); cases += 1
            c.ob("%s is a number" % cls, W.get(st, e, "type") is C(W.types["NUMBER"]), W.fn(e, "type", 0).loc)
    for lk in KINDS:
        x, p1, lv = unknown(lk, "l", 1)
        L, st = W.operand(st0, "L", lk, x)
        e, st = W.expression(st, "UnaryNegative", "neg", L)
        d = judge(W.call(st, e, "evaluateAsNumber", ctx, env), assignments(p1), lambda m: -num(lk, lv(m)))
        c.ob("minus %s" % lk, d is None, W.fn(e, "evaluateAsNumber", 2).loc, d); cases += 1
    # ---------------------------------------------------------------- and, or
    for cls, py, stop in (("AndOperator", lambda a, b: a and b, False), ("OrOperator", lambda a, b: a or b, True)):
        for lk, rk in itertools.product(KINDS, KINDS):
            x, p1, lv = unknown(lk, "l", 1); y, p2, rv = unknown(rk, "r", 1)
            for n in (0, 1):
                if n == 0 and lk != "NODE_SET": continue
                L, st = W.operand(st0, "L", lk, x[:n] if lk == "NODE_SET" else x); R, st = W.operand(st, "R", rk, y)
                e, st = W.expression(st, cls, "log", L, R)
                val = lambda m: lv(m)[:n] if lk == "NODE_SET" else lv(m)
                want = lambda m: int(py(boolean(lk, val(m)), boolean(rk, rv(m))))
                outs = W.call(st, e, "evaluateAsBool", ctx, env)
                ms = list(assignments(pools(p1, p2)))
                d = judge(outs, ms, want)
                c.ob("%s of %s and %s" % (cls, lk, rk), d is None, W.fn(e, "evaluateAsBool", 2).loc, d); cases += 1
                def asked(o):
                    return C(sum(1 << (x[1] == "R") for x in o.st.mon if x[0] == "asked"))
                d = judge(outs, ms, lambda m: 1 if bool(boolean(lk, val(m))) == stop else 3, asked)
                c.ob("%s of %s and %s: the right operand is evaluated only when needed" % (cls, lk, rk), d is None, W.fn(e, "evaluateAsBool", 2).loc, d)
                outs = W.call(st, e, "evaluate", ctx, env)
                d = judge(outs, ms, want, boolval(outs))
                c.ob("%s of %s and %s as value" % (cls, lk, rk), d is None, W.fn(e, "evaluate", 2).loc, d); cases += 1
    c.floor("cases", cases, 400)
    c.stat("cases", cases); c.stat("runs", W.runs); c.stat("paths", W.paths)
    return c.finish()
