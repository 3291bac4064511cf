"""Evaluating XPath expression objects: operands with known values, node-sets over documents of known shape, and judging
paths whose conditions compare unknown numbers and strings."""
import itertools, math, re
from .prog import Broken
from .absint import C, NULL, mk, State, Exc
from .cont import ContModel, seq
from .strs import StrEdit, strval, cat, NPOS
from .tree import Trees, TreeMon, lit
from .dom import final, merge, Failed

NSX = "Arabica::XPath::"
OPERAND = "arx_operand"
# what boost::lexical_cast<double> takes
LEXICAL = re.compile(r"[+-]?(([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?|[iI][nN][fF]([iI][nN][iI][tT][yY])?|[nN][aA][nN](\([^)]*\))?)\Z")
NAN = float("nan"); INF = float("inf")


FUNCTORS = {"std::equal_to": "==", "std::not_equal_to": "!=", "std::less": "<", "std::greater": ">", "std::less_equal": "<=", "std::greater_equal": ">=",
            "std::plus": "+", "std::minus": "-", "std::multiplies": "*", "std::divides": "/", "std::negate": "neg"}


def fval(x):
    return mk("f", float(x))


class XPMon(StrEdit, ContModel):
    """operands answer with a prepared value; smart pointers hold what they were given; number(s) of an unknown s is an unknown number"""
    roots = TreeMon.roots + ("Arabica::XPath::", "Arabica::text::")
    maxlen = 40
    adopted = None
    numbers = True              # conversions of unknown strings are kept as symbols

    def init(self):
        return ()

    def inline(self, A, fn, ev):
        return any(r in fn.name for r in self.roots) and not fn.name.startswith("boost::")

    def distinct(self, A, st, x, y):
        return x is not y

    def on_call(self, A, st, ev):
        if ev.name == "Arabica::XML::is_space" and len(ev.vals) == 1 and ev.vals[0].k == "c":
            return [(st, C(ev.vals[0].a[0] in (9, 10, 13, 32)))]
        if ev.name.startswith("Arabica::XML::is_") and len(ev.vals) == 1:
            return [(st, C(1))]
        cls = (ev.cls or "").split("<")[0]
        if cls in ("boost::shared_ptr", "std::shared_ptr"):
            r = self.shared(A, st, ev)
            if r is not None:
                return r
        if "stream" in cls or ev.short == "operator<<" and ev.args and "stream<" in str(ev.ty):
            r = self.stream(A, st, ev)
            if r is not None:
                return r
        if ev.recv is not None and ev.recv.k == "N" and ev.recv.a[0] in self.values and ev.kind == "call":
            return self.operand(A, st, ev)
        if cls in FUNCTORS and ev.short == "operator()" and len(ev.args) in (1, 2):
            op = FUNCTORS[cls]
            its = [self.itval(A, st, x) for x in ev.args]
            if all(x is not None for x in its):
                return [(st, C((its[0] is its[1]) == (op == "==")))]
            x = [strval(v) for v in ev.vals]
            if op == "neg": return [(st, fval(-x[0].a[0]) if x[0].k == "f" else self.typed(A, mk("neg", x[0]), "double"))]
            if op in ("&&", "||"): return None
            if op in ("==", "!=", "<", ">", "<=", ">="):
                return [(st, A.compare(st, op, *x))]
            return [(st, A.arith(st, op, x[0], x[1], {"ty": "double", "k": "bin"}))]
        if ev.name.startswith("std::") and ev.short in ("sqrt", "fabs", "abs", "floor", "ceil", "fmod", "isnan", "isinf", "signbit", "trunc", "modf") or \
                ev.name in ("fmod", "floor", "ceil", "fabs"):
            return self.math(A, st, ev)
        if ev.name == "boost::lexical_cast" and ev.ty == "double" and len(ev.args) == 1:
            v = strval(A.load(st, ev.args[0]))
            if v.k == "s":
                m = LEXICAL.match(v.a[0])
                if m: return [(st, fval(v.a[0].lower().split("(")[0]))]
                return [(st, Exc(None, "boost::bad_lexical_cast", None, ev.where))]
        if ev.name == "boost::lexical_cast" and "basic_string" in ev.ty and len(ev.vals) == 1 and ev.vals[0].k == "f":
            return [(st, lit("%.17g" % ev.vals[0].a[0]))]
        if self.numbers and ev.ty == "double" and len(ev.args) == 1 and (ev.recv is None) and ev.fn is not None:
            v = strval(A.load(st, ev.args[0]))
            if v.k in ("str", "cat"):
                return [(st, self.number(A, v))]
        return ContModel.on_call(self, A, st, ev)

    values = {}

    def stream(self, A, st, ev):
        """a string stream is the string written to it"""
        if ev.kind == "ctor" and not ev.args: return [(st, lit(""))]
        if ev.kind == "dtor" or ev.short.startswith("~"): return [(st, mk("void"))]
        ops = ([ev.recv] if ev.recv is not None else []) + list(ev.args)
        vals = ([None] if ev.recv is not None else []) + list(ev.vals)
        if ev.short == "operator<<" and len(ops) == 2:
            x = strval(vals[1])
            if x.k == "c" and "char" in (self.ptype(ev, len(ev.args) - 1) or ""): pass
            elif x.k not in ("s", "str", "cat", "sub"): x = strval(A.load(st, ops[1]))
            cur = st.store.get(ops[0])
            if cur is None or x.k not in ("s", "str", "cat", "sub", "size", "c"): return None
            if x.k == "c" and "char" not in (self.ptype(ev, len(ev.args) - 1) or ""): return None
            s = st.copy(); s.store[ops[0]] = cat(cur, mk("chr", x) if x.k == "c" else x)
            return [(s, ops[0])]
        if ev.short == "str" and not ev.args and ops[0] in st.store: return [(st, st.store[ops[0]])]
        if ev.short == "str" and len(ev.args) == 1 and ops[0] in st.store:
            x = strval(vals[1])
            if x.k not in ("s", "str", "cat", "sub", "seq"): x = strval(A.load(st, ops[1]))
            if x.k not in ("s", "str", "cat", "sub", "seq"): return None
            s = st.copy(); s.store[ops[0]] = x
            return [(s, mk("void"))]
        return None

    def typed(self, A, t, ty):
        A.tyof[t] = ty
        return t

    def number(self, A, v):
        t = mk("num", v); A.tyof[t] = "double"
        return t

    def math(self, A, st, ev):
        v = ev.vals
        if all(x.k == "f" for x in v):
            x = [y.a[0] for y in v]
            try:
                if ev.short == "fmod": return [(st, fval(NAN if x[0] != x[0] or x[1] != x[1] or math.isinf(x[0]) or x[1] == 0 else math.fmod(*x)))]
                if ev.short in ("fabs", "abs"): return [(st, fval(abs(x[0])))]
                if ev.short == "floor": return [(st, fval(x[0] if x[0] != x[0] or math.isinf(x[0]) else math.copysign(math.floor(x[0]), x[0])))]
                if ev.short == "ceil": return [(st, fval(x[0] if x[0] != x[0] or math.isinf(x[0]) else math.copysign(math.ceil(x[0]), x[0])))]
                if ev.short == "trunc": return [(st, fval(x[0] if x[0] != x[0] or math.isinf(x[0]) else math.copysign(math.trunc(x[0]), x[0])))]
                if ev.short == "isnan": return [(st, C(x[0] != x[0]))]
                if ev.short == "isinf": return [(st, C(math.isinf(x[0])))]
                if ev.short == "signbit": return [(st, C(math.copysign(1, x[0]) < 0))]
                if ev.short == "sqrt": return [(st, fval(math.sqrt(x[0]) if x[0] >= 0 else NAN))]
            except (ValueError, OverflowError):
                pass
        t = mk("math", ev.short, *v)
        A.tyof[t] = "bool" if ev.short in ("isnan", "isinf", "signbit") else "double"
        return [(st, t)]

    def bad_index(self, A, st, ev):
        raise Failed("%s stays within the container" % ev.short, ev.where)

    def underflow(self, A, st, ev):
        raise Failed("%s of a container that is not empty" % ev.short, ev.where)

    def shared(self, A, st, ev):
        r = ev.recv
        if ev.kind == "ctor":
            if not ev.vals: return [(st, NULL)]
            v = ev.vals[0]
            nd = ev.infn.nodes[ev.infn.nodes[ev.node]["args"][0]] if ev.node >= 0 and ev.infn.nodes[ev.node].get("args") else {}
            if str(nd.get("ty", "")).rstrip().endswith("*"):
                self.adopt(A, st, v, ev)
            return [(st, v)]
        if ev.kind == "dtor" or ev.short.startswith("~"): return [(st, mk("void"))]
        if ev.short in ("get", "operator->", "operator*"): return [(st, A.load(st, r))]
        if ev.short in ("operator bool",): return [(st, C(A.load(st, r) is not NULL))]
        if ev.short in ("operator=", "reset"):
            s = st.copy(); v = ev.vals[0] if ev.vals else NULL
            if ev.short == "reset" and ev.vals: self.adopt(A, st, v, ev)
            s.store[r] = v
            return [(s, r)]
        return None

    def adopt(self, A, st, v, ev):
        if self.adopted is not None:
            self.adopted.append((v, ev.where))

    def operand(self, A, st, ev):
        kind, impl = self.values[ev.recv.a[0]]
        if ev.short == "type":
            return [(st, C(kind))]
        if ev.short == "evaluate":
            T = mk("T", ev.frame.fid, ev.node)
            st = st.copy(); st.mon = st.mon + (("asked", ev.recv.a[0], len(ev.args) and ev.args[0]),)
            return value_object(A, st, ev, T, impl)
        if ev.short.startswith("evaluateAs"):
            return None
        raise Broken("an operand is asked for " + ev.short)


def value_object(A, st, ev, T, impl):
    """an XPathValue at T which holds impl"""
    rec = A.P.one_rec(NSX + "XPathValue")["id"]
    ks = [A.P.fns[m["id"]] for m in A.P.methods(rec) if m.get("kind") == "ctor" and m["id"] in A.P.fns]
    ks = [f for f in ks if len(f.params) == 1 and "XPathValue_impl<" in f.params[0]["ty"] and f.params[0]["ty"].rstrip().endswith("*")]
    if len(ks) != 1:
        raise Broken("constructors of XPathValue")
    for k in [k for k in st.store if k is T or k.k == "F" and k.a[0] is T]:
        del st.store[k]
    A.exact[T] = rec
    keep, A.mon.adopted = A.mon.adopted, None
    outs = A.invoke(st, ev, ks[0], T, [impl])
    A.mon.adopted = keep
    return [(o.st, T) for o in outs]


class XWorld(Trees):
    def __init__(self, P, mon=None, **k):
        Trees.__init__(self, P, mon or XPMon(), **k)
        self.mon.values = {}
        self.types = {n: P.enum_val(NSX + n) for n in ("BOOL", "NUMBER", "STRING", "NODE_SET", "ANY")}

    # ---- values
    def value(self, st, kind, name, x):
        """(implementation object, state) of a value of a kind; x: number or string or truth value term, or node proxies"""
        cls = {"BOOL": "BoolValue", "NUMBER": "NumericValue", "STRING": "StringValue", "NODE_SET": "NodeSetValue"}[kind]
        if kind == "NODE_SET":
            x, st = self.nodeset(st, name + ".set", x)
        pick = lambda f: len(f.params) == 1 and cls + "<" not in f.params[0]["ty"] and "char *" not in f.params[0]["ty"]
        n, outs = self.obj(st, NSX + cls, name, x, pick=pick)
        if len(outs) != 1 or outs[0].kind != "ret":
            raise Broken("%s cannot be made" % cls)
        return n, outs[0].st

    def operand(self, st, name, kind, x):
        impl, st = self.value(st, kind, name + ".value", x)
        n = mk("N", name); self.exact[n] = self.P.one_rec(OPERAND)["id"]
        self.mon.values[name] = (self.types[kind], impl)
        return n, st

    def nodeset(self, st, name, proxies):
        n, outs = self.obj(st, NSX + "NodeSet", name, pick=lambda f: len(f.params) == 0)
        st = outs[0].st
        f = [self.P.fns[m["id"]] for m in self.P.method(self.exact[n], "push_back", 1) if m["id"] in self.P.fns]
        f = [g for g in f if "NodeSet<" not in g.params[0]["ty"]]
        if len(f) != 1:
            raise Broken("NodeSet::push_back")
        for p in proxies:
            outs = self.engine_run(f[0], n, [p], st)
            st = outs[0].st
        return n, st

    def engine_run(self, f, this, args, st):
        A = self.engine(); self.A = A
        s = st.copy(); s.mon = self.mon.init()
        outs = A.run(f, this=this, args=list(args), st=s)
        self.runs += 1; self.paths += len(outs)
        self.learn()
        return outs

    def proxy(self, st, impl, name):
        n, outs = self.obj(st, "Arabica::DOM::Node", name, impl, pick=lambda f: len(f.params) == 1 and "Node_impl<" in f.params[0]["ty"])
        if len(outs) != 1 or outs[0].kind != "ret":
            raise Broken("a node cannot be held")
        return n, outs[0].st

    # ---- expressions
    def expression(self, st, cls, name, *args):
        n, outs = self.obj(st, NSX + "impl::" + cls, name, *args, pick=lambda f: len(f.params) == len(args))
        if len(outs) != 1 or outs[0].kind != "ret":
            raise Broken("%s cannot be made" % cls)
        return n, outs[0].st

    def call(self, st, obj, name, *args):
        outs = Trees.call(self, st, obj, name, *args)
        for k in self.A.opaque:
            if k.startswith("Arabica::") and "~" not in k:
                raise Broken("%s is not analysed inside %s" % (k, name))
        self.seen = dict(self.A.opaque)
        return outs

    def ask(self, st, expr, name, *args):
        """outcomes of an observer of an expression or value; by qualified parameters count"""
        return self.call(st, expr, name, *args)

    def held(self, st, v):
        """implementation object of an XPathValue"""
        A = self.engine()
        fs = [f for f in (final(self.P, self.P.one_rec(NSX + "XPathValue")["id"], "type", 0),) if f]
        # the smart pointer is the one field
        ps = [x for k, x in st.store.items() if k.k == "F" and k.a[0] is v]
        return ps[0] if len(ps) == 1 else None


# ---- judging paths
def evaluate(t, m):
    """value of a term under an assignment of strings and numbers to the unknown ones"""
    k = t.k
    if k == "c": return t.a[0]
    if k == "f": return t.a[0]
    if k == "s": return t.a[0]
    if t in m: return m[t]
    if k == "num": return number(evaluate(t.a[0], m))
    if k == "not": return int(not evaluate(t.a[0], m))
    if k == "cat": return "".join(evaluate(x, m) for x in t.a)
    if k == "size": return len(evaluate(t.a[0], m))
    if k == "cast":
        v = evaluate(t.a[1], m)
        if t.a[0] in ("double", "float"): return float(v)
        if isinstance(v, float): raise Broken("cast of a number to %s" % t.a[0])
        return v
    if k == "un" and t.a[0] == "-": return -evaluate(t.a[1], m)
    if k == "neg": return -evaluate(t.a[0], m)
    if k == "isspace": return int(evaluate(t.a[0], m) in (9, 10, 13, 32))
    if k == "math":
        x = [evaluate(y, m) for y in t.a[1:]]
        if t.a[0] == "isnan": return int(x[0] != x[0])
        if t.a[0] == "isinf": return int(math.isinf(x[0]))
        if t.a[0] == "signbit": return int(math.copysign(1, x[0]) < 0)
        if t.a[0] in ("fabs", "abs"): return abs(x[0])
        if t.a[0] == "fmod": return fmod(*x)
        if t.a[0] in ("floor", "ceil", "trunc"):
            return x[0] if x[0] != x[0] or math.isinf(x[0]) else math.copysign(getattr(math, t.a[0])(x[0]), x[0])
    if k == "op":
        o = t.a[0]
        if o == "&&": return int(bool(evaluate(t.a[1], m)) and bool(evaluate(t.a[2], m)))
        if o == "||": return int(bool(evaluate(t.a[1], m)) or bool(evaluate(t.a[2], m)))
        x = evaluate(t.a[1], m); y = evaluate(t.a[2], m) if len(t.a) > 2 else None
        if isinstance(x, str) != isinstance(y, str) and y is not None: raise Broken("comparison of a string with a number")
        if o == "==": return int(x == y)
        if o == "<": return int(x < y)
        if o == "<=": return int(x <= y)
        if o == "+": return x + y
        if o == "-": return x - y if y is not None else -x
        if o == "*": return x * y
        if o == "/": return fdiv(x, y)
        if o == "%": return fmod(x, y)
    raise Broken("cannot judge %s (%s)" % (t, t.k))


def fdiv(x, y):
    try:
        return x / y
    except ZeroDivisionError:
        if x != x or x == 0: return NAN
        return math.copysign(INF, x) * math.copysign(1, y)


def fmod(x, y):
    if x != x or y != y or math.isinf(x) or y == 0: return NAN
    return math.fmod(x, y)


def number(s):
    """XPath 1.0 number() of a string"""
    s = s.strip(" \t\r\n")
    return float(s) if re.match(r"-?([0-9]+(\.[0-9]*)?|\.[0-9]+)\Z", s) else NAN


def symbols(t, out):
    """the unknown strings and numbers in a term"""
    if t.k in ("str", "numvar", "truth"):
        out.add(t)
    else:
        for x in t.a:
            if hasattr(x, "k"): symbols(x, out)
    return out


def conditions(st, known):
    """the decisions of a path about the unknown strings and numbers"""
    out = []
    for t, iv in st.dom.items():
        s = symbols(t, set())
        if s and s <= known:
            out.append((t, iv))
    return out


def consistent(conds, m):
    for t, iv in conds:
        v = evaluate(t, m)
        if isinstance(v, float) and (v != v or math.isinf(v)):
            if iv == ((0, 0),): return False
            continue
        if isinstance(v, str):
            raise Broken("cannot judge %s (%s)" % (t, t.k))
        if not any(a <= v <= b for a, b in iv):
            if isinstance(v, float) and v != int(v) and len(iv) == 2 and iv[0][1] == -1 and iv[1][0] == 1:
                continue
            return False
    return True


def same(a, b):
    if isinstance(a, float) or isinstance(b, float):
        a, b = float(a), float(b)
        return a != a and b != b or a == b and math.copysign(1, a) == math.copysign(1, b)
    return a == b


def judge(outs, models, want, answer=lambda o: o.val):
    """for every model exactly the wanted answer; returns a description of the first difference, or None

    models: assignments {unknown: value}; want: assignment -> value"""
    known = set()
    models = list(models)
    for m in models[:1]:
        known = set(m)
    pre = []
    for o in outs:
        pre.append((o, conditions(o.st, known), answer(o) if o.kind == "ret" else None))
    for m in models:
        w = want(m); found = False
        for o, cs, v in pre:
            if not consistent(cs, m):
                continue
            found = True
            if o.kind != "ret":
                return "%s: %s, expected %s" % (show(m), o.exc, w)
            g = evaluate(v, m)
            if not same(g, w):
                return "%s: %s, expected %s" % (show(m), g, w)
        if not found:
            return "%s: no answer" % show(m)
    return None


def show(m):
    return ", ".join("%s=%r" % (t.a[0] if t.a else t, v) for t, v in m.items())


def assignments(pools):
    """every assignment, pools: {unknown: values}"""
    ks = list(pools)
    for vs in itertools.product(*[pools[k] for k in ks]):
        yield dict(zip(ks, vs))
