"""Forward, trace-partitioned abstract interpretation of resolved CFGs.

Abstract values are hash-consed terms that say where a value came from (a constant, a parameter, a field of an object, the
result of a call, ...): constant propagation plus copy/origin propagation (value numbering).  Integer, pointer and boolean
values additionally carry a set of intervals, refined at branches.  States at a program point are kept apart as long as they
differ (trace partitioning) and widened at loop heads, so that the fixpoint is finite; repository callees are analysed in the
calling context.  A Monitor attached to the run is a finite automaton over the events (calls, stores, throws, returns) that a
property speaks about.  No path is executed and no formula is handed to a solver.
"""
import math, re, sys
from .prog import Broken

sys.setrecursionlimit(20000)


# ------------------------------------------------------------------ terms
class Term:
    __slots__ = ("k", "a", "n", "rt")
    def __repr__(self):
        return show(self)
    def __lt__(self, o):
        return self.n < o.n


_tab = {}


def mk(k, *a):
    key = (k,) + a if k != "f" else ("f", repr(a[0]))       # zeros keep their sign
    t = _tab.get(key)
    if t is None:
        t = Term(); t.k = k; t.a = a; t.n = len(_tab)
        t.rt = a[0] if k == "L" else a[0].rt if k in ("F", "I") and isinstance(a[0], Term) else None   # frame that owns the storage
        _tab[key] = t
    return t


def C(v):
    return mk("c", int(v))


TRUE, FALSE, NULL = C(1), C(0), C(0)


def is_c(t):
    return t.k == "c"


def show(t, d=0):
    if not isinstance(t, Term):
        return str(t)
    if t.k == "c":
        return str(t.a[0])
    if t.k == "s":
        return repr(t.a[0])
    if t.k == "p":
        return "arg%s" % t.a[0]
    if t.k == "this":
        return "this"
    if t.k == "F":
        return show(t.a[0], d + 1) + "." + t.a[1]
    if t.k == "ld":
        return show(t.a[0], d + 1)
    if t.k == "G":
        return "global:" + str(t.a[0]).split("@")[-1]
    if d > 6:
        return t.k + "(..)"
    if t.k == "op":
        return "(%s %s %s)" % (show(t.a[1], d + 1), t.a[0], show(t.a[2], d + 1))
    return t.k + "(" + ", ".join(show(x, d + 1) for x in t.a) + ")"


def subterms(t, acc=None):
    if acc is None:
        acc = set()
    if isinstance(t, Term) and t not in acc:
        acc.add(t)
        for x in t.a:
            if isinstance(x, Term):
                subterms(x, acc)
    return acc


_contains_cache = {}


def contains(t, sub):
    if t is sub:
        return True
    if sub.n > t.n and t.k != "":
        return False          # a sub-term is always older than the term built from it
    key = (t, sub)
    r = _contains_cache.get(key)
    if r is None:
        r = any(isinstance(x, Term) and contains(x, sub) for x in t.a)
        _contains_cache[key] = r
    return r


def subst(t, old, new):
    if t is old:
        return new
    if not isinstance(t, Term) or not contains(t, old):
        return t
    return mk(t.k, *[subst(x, old, new) if isinstance(x, Term) else x for x in t.a])


# ------------------------------------------------------------------ interval sets
def iv_norm(l):
    l = sorted(l); out = []
    for a, b in l:
        if a > b:
            continue
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return tuple(out)


def iv_and(x, y):
    out = []; i = j = 0
    while i < len(x) and j < len(y):
        a = max(x[i][0], y[j][0]); b = min(x[i][1], y[j][1])
        if a <= b:
            out.append((a, b))
        if x[i][1] < y[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


BIG = 1 << 70
ALL = ((-BIG, BIG),)


def iv_not(x):
    out = []; cur = -BIG
    for a, b in x:
        if a > cur:
            out.append((cur, a - 1))
        cur = b + 1
    if cur <= BIG:
        out.append((cur, BIG))
    return tuple(out)


def iv_sub(x, y):
    return iv_and(x, iv_not(y))


def iv_or(x, y):
    return iv_norm(list(x) + list(y))


def iv_size(x):
    return sum(b - a + 1 for a, b in x)


INT_TYPES = {
    "bool": (0, 1), "char": (-128, 127), "signed char": (-128, 127), "unsigned char": (0, 255),
    "short": (-32768, 32767), "unsigned short": (0, 65535), "int": (-2**31, 2**31 - 1), "unsigned int": (0, 2**32 - 1),
    "long": (-2**63, 2**63 - 1), "unsigned long": (0, 2**64 - 1), "long long": (-2**63, 2**63 - 1),
    "unsigned long long": (0, 2**64 - 1), "wchar_t": (-2**31, 2**31 - 1), "char16_t": (0, 65535),
    "char32_t": (0, 2**32 - 1), "char8_t": (0, 255),
}


def bare(ty):
    ty = ty.replace("const ", "").replace("volatile ", "").strip()
    if ty.endswith("&&"):
        ty = ty[:-2].strip()
    elif ty.endswith("&"):
        ty = ty[:-1].strip()
    if ty.endswith(" const"):
        ty = ty[:-6]
    return ty


def int_range(ty):
    ty = bare(ty)
    r = INT_TYPES.get(ty)
    if r:
        return (r,)
    if ty.endswith("*") or "(*" in ty:
        return ((0, 2**64 - 1),)
    return None


def wrap(v, ty):
    r = int_range(ty)
    if r is None:
        return v
    lo, hi = r[0]
    n = hi - lo + 1
    return (v - lo) % n + lo


def base_name(name):
    """strip template arguments from a qualified name"""
    if "<" not in name:
        return name
    # keep operator< etc.
    m = re.search(r"operator\s*(<<=|<=>|<<|<=|<|>>=|>>|>=|>|->\*|->)$", name)
    tail = ""
    if m:
        tail = m.group(0); name = name[:m.start()]
    out = []; d = 0
    for ch in name:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    return "".join(out) + tail


# ------------------------------------------------------------------ state
class State:
    __slots__ = ("store", "dom", "mon", "cnt", "ver")
    def __init__(self):
        self.store = {}; self.dom = {}; self.mon = None; self.cnt = {}; self.ver = {}
    def copy(self):
        s = State()
        s.store = dict(self.store); s.dom = dict(self.dom); s.mon = self.mon; s.cnt = dict(self.cnt); s.ver = dict(self.ver)
        return s
    def key(self):
        return (frozenset(self.store.items()), frozenset(self.dom.items()), self.mon, frozenset(self.ver.items()))


def state_key(s, env, cross):
    return (s.key(), frozenset((n, v) for n, v in env.items() if not isinstance(n, int) or n in cross))


class Event:
    __slots__ = ("kind", "fn", "name", "short", "cls", "recv", "args", "vals", "where", "node", "infn", "virt", "const", "ty",
                 "depth", "static", "argtys", "res", "clsid", "recvval", "frame")
    def __repr__(self):
        return "%s %s(%s) @%s" % (self.kind, self.name, ", ".join(map(str, self.vals or [])), self.where)


class Outcome:
    __slots__ = ("kind", "val", "st", "exc")
    def __init__(self, kind, val, st, exc=None):
        self.kind = kind; self.val = val; self.st = st; self.exc = exc
    def __repr__(self):
        return "<%s %s mon=%s>" % (self.kind, self.exc or self.val, self.st.mon)


class Exc:
    """an exception in flight"""
    __slots__ = ("rec", "name", "val", "where", "args")
    def __init__(self, rec, name, val, where, args=()):
        self.rec = rec; self.name = name; self.val = val; self.where = where; self.args = args
    def __repr__(self):
        return "%s%s" % (self.name, self.args)


class Monitor:
    """override what the property needs"""
    addresses = None                       # object -> order of its address, when that is decided
    whole = False                          # objects in containers are copied with them; static locals hold their objects
    def init(self):
        return None
    def indirect(self, A, st, ev, fp):     # a call through a function pointer the program did not set
        return None

    def inline(self, A, fn, ev):           # analyse this repository callee in context?
        return True
    def on_call(self, A, st, ev):          # return None (default), or a list of (st, value) replacing the call
        return None
    def on_store(self, A, st, loc, val, ev):
        pass
    def on_throw(self, A, st, exc):
        pass
    def on_ret(self, A, st, fn, val):
        pass
    def may_throw(self, A, st, ev):        # does this opaque call raise?  -> exception name or None
        return None
    def dispatch(self, A, st, ev):         # virtual call on unknown receiver: list of function ids, or None
        return None
    def load(self, A, st, loc):            # initial contents of a location
        return None
    def on_delete(self, A, st, ev):
        pass
    def on_head(self, A, st, key, first):         # a loop head is (re)visited
        pass
    def dyncast(self, A, st, v, rec):             # dynamic_cast of a pointer to an object of unknown class
        return None


class Frame:
    __slots__ = ("fn", "fid", "this", "parent", "node", "lam")
    def __init__(self, fn, fid, this, parent, node):
        self.fn = fn; self.fid = fid; self.this = this; self.parent = parent; self.node = node; self.lam = None


class Budget(Broken):
    pass


NONMUT = {"begin", "end", "rbegin", "rend", "cbegin", "cend", "find", "back", "front", "at", "operator[]", "size", "empty", "length",
          "c_str", "data", "lower_bound", "upper_bound", "equal_range", "count", "top", "get", "operator*", "operator->", "get_deleter",
          "operator bool", "rdbuf", "str", "base", "substr", "compare"}
IDENT_FREE = {"std::move", "std::forward", "std::addressof", "std::__addressof", "std::as_const"}


class AbsInt:
    def __init__(self, prog, mon=None, max_depth=24, max_steps=400000, unroll=4, max_rec=1, max_states=20000):
        self.P = prog; self.mon = mon or Monitor(); self.max_depth = max_depth; self.max_steps = max_steps
        self.unroll = unroll; self.max_rec = max_rec; self.steps = 0; self.max_states = max_states
        self.fids = {}; self.tyof = {}; self.exact = {}
        self.unique_new = False
        self.inlined = set(); self.calls = 0; self.opaque = {}
        self._gval = {}; self.covered = set(); self.salt = 0       # salt keeps results of separate runs apart

    # ---- entry points ----
    def run(self, fn, this=None, args=None, st=None):
        """analyse fn from an arbitrary (symbolic) calling context; returns outcomes"""
        if isinstance(fn, str):
            fn = self.P.fns[fn]
        if st is None:
            st = State(); st.mon = self.mon.init()
        if this is None and fn.cls and not fn.static:
            this = mk("this")
        if args is None:
            args = self.sym_args(fn)
        return self.run_fn(fn, st, this, args, None, -1, 0)

    def sym_args(self, fn):
        out = []
        for i, p in enumerate(fn.params):
            t = mk("p", i)
            self.tyof[t] = bare(p["ty"])
            out.append(t)
        return out

    # ---- state helpers ----
    def rng(self, t):
        """interval set for the type of term t"""
        if t.k == "c":
            return ((t.a[0], t.a[0]),)
        if t.k == "op" and t.a[0] in ("==", "<", "&&", "||"):
            return ((0, 1),)
        if t.k == "not":
            return ((0, 1),)
        if t.k in ("L", "T", "new", "this", "G", "fn", "s", "alloc", "obj", "obj0", "handler", "reader", "H", "N", "insel"):
            return ((1, 2**64 - 1),)
        if t.k == "F" or t.k == "I":
            return ((1, 2**64 - 1),)
        if t.k == "cast":
            r = int_range(t.a[0])
            if r:
                return r
        ty = self.tyof.get(t)
        if ty:
            r = int_range(ty)
            if r:
                return r
        return ALL

    def dom(self, st, t):
        d = st.dom.get(t)
        if d is None:
            d = self.rng(t)
        if t.k == "cast" or t.k == "op":
            d2 = self.img(st, t)
            if d2 is not None:
                d = iv_and(d, d2)
        return d

    def img(self, st, t):
        """forward image of simple terms"""
        if t.k == "cast":
            src = self.dom(st, t.a[1]); r = int_range(t.a[0])
            if r and src is not ALL and iv_sub(src, r) == ():
                return src
            if r and src is not ALL and iv_size(src) <= 4096:
                return iv_norm([(wrap(v, t.a[0]),) * 2 for a, b in src for v in range(a, b + 1)])
            return None
        if t.k == "op" and t.a[0] in ("+", "-") and t.a[2].k == "c":
            src = self.dom(st, t.a[1])
            if src is ALL:
                return None
            k = t.a[2].a[0] if t.a[0] == "+" else -t.a[2].a[0]
            ty = self.tyof.get(t)
            r = int_range(ty) if ty else None
            out = tuple((a + k, b + k) for a, b in src)
            if r and iv_sub(out, r) != ():
                return None
            return out
        if t.k == "op" and t.a[0] in ("+", "-") and len(t.a) == 3:
            x, y = self.dom(st, t.a[1]), self.dom(st, t.a[2])
            if x is ALL or y is ALL or self.isfloat(t) or self.isfloat(t.a[1]) or self.isfloat(t.a[2]) or min(iv_size(x), iv_size(y)) != 1:
                return None
            if t.a[0] == "-":
                y = tuple((-b, -a) for a, b in reversed(y))
            if iv_size(x) == 1:
                x, y = y, x
            k = y[0][0]
            ty = self.tyof.get(t)
            r = int_range(ty) if ty else None
            out = tuple((a + k, b + k) for a, b in x)
            if r is None or iv_sub(out, r) != ():
                return None
            return out
        if t.k == "op" and t.a[0] in ("&", "|", ">>", "<<", "%", "^") and t.a[2].k == "c":
            src = self.dom(st, t.a[1])
            if src is not ALL and iv_size(src) <= 70000:
                f = _BIT[t.a[0]]; k = t.a[2].a[0]
                try:
                    return iv_norm([(f(v, k),) * 2 for a, b in src for v in range(a, b + 1)])
                except (ValueError, ZeroDivisionError):
                    return None
            if t.a[0] == "&" and t.a[2].a[0] >= 0:
                return ((0, t.a[2].a[0]),)
        return None

    def meet(self, st, t, S):
        """constrain t to S; False if infeasible"""
        if t.k == "c":
            return any(a <= t.a[0] <= b for a, b in S)
        cur = self.dom(st, t)
        new = iv_and(cur, S)
        if not new:
            return False
        if new == cur:
            return True
        if t.k == "not":
            inv = iv_norm([(1 - b, 1 - a) for a, b in iv_and(new, ((0, 1),))])
            return self.meet(st, t.a[0], ((0, 0),)) if inv == ((0, 0),) else self.assume(st, t.a[0], True)
        if t.k == "cast":
            # preimage under the conversion
            x = t.a[1]; src = self.dom(st, x); r = int_range(t.a[0])
            if r is not None and src is not ALL:
                n = r[0][1] - r[0][0] + 1
                if iv_sub(src, r) == ():
                    return self.meet(st, x, new)
                lo, hi = src[0][0], src[-1][1]
                if (hi - lo) // n < 20000:
                    pre = []
                    k0 = (lo - r[0][1]) // n - 1; k1 = (hi - r[0][0]) // n + 1
                    for k in range(k0, k1 + 1):
                        for a, b in new:
                            pre.append((a + k * n, b + k * n))
                    pre = iv_and(iv_norm(pre), src)
                    if not pre:
                        return False
                    st.dom[t] = new
                    return self.meet(st, x, pre)
        elif t.k == "op" and t.a[0] in ("+", "-") and t.a[2].k == "c":
            k = t.a[2].a[0] if t.a[0] == "+" else -t.a[2].a[0]
            x = t.a[1]; src = self.dom(st, x)
            ty = self.tyof.get(t); r = int_range(ty) if ty else None
            if src is not ALL:
                if r:
                    n = r[0][1] - r[0][0] + 1
                    pre = []
                    for j in (-1, 0, 1):
                        for a, b in new:
                            pre.append((a - k + j * n, b - k + j * n))
                    pre = iv_norm(pre)
                else:
                    pre = tuple((a - k, b - k) for a, b in new)
                if not self.meet(st, x, pre):
                    return False
        elif t.k == "op" and t.a[0] in _BIT and t.a[2].k == "c":
            x = t.a[1]; src = self.dom(st, x)
            if src is not ALL and iv_size(src) <= 70000:
                f = _BIT[t.a[0]]; kk = t.a[2].a[0]
                def inn(v):
                    return any(a <= v <= b for a, b in new)
                pre = iv_norm([(v, v) for a, b in src for v in range(a, b + 1) if inn(f(v, kk))])
                if not pre:
                    return False
                if not self.meet(st, x, pre):
                    return False
        st.dom[t] = new
        return True

    def truth(self, st, t):
        """True / False / None"""
        if t.k == "c":
            return t.a[0] != 0
        if t.k == "f":
            return t.a[0] != 0
        if t.k == "not":
            r = self.truth(st, t.a[0])
            return None if r is None else not r
        if t.k == "op":
            o, a, b = t.a[0], t.a[1], t.a[2]
            if o == "==":
                if a is b and not self.isfloat(a):
                    return True
                if a.k == "s" and b.k == "s":
                    return a.a[0] == b.a[0]
                if a.k == "N" and b.k in ("N", "new", "L", "T") or b.k == "N" and a.k in ("new", "L", "T"):
                    return False
                if a.k == "new" and b.k == "new" or (a.k in ("L", "T", "new") and b.k in ("L", "T", "new", "p", "this") and a is not b):
                    return False
                da, db = self.dom(st, a), self.dom(st, b)
                if not iv_and(da, db):
                    return False
                if b.k == "c" and iv_size(da) == 1:
                    return da[0][0] == b.a[0]
                if a.k == "c" and iv_size(db) == 1:
                    return db[0][0] == a.a[0]
                if iv_size(da) == 1 and da == db:
                    return True
            elif o == "<":
                if a is b:
                    return False
                da, db = self.dom(st, a), self.dom(st, b)
                if da is not ALL and db is not ALL:
                    if da[-1][1] < db[0][0]:
                        return True
                    if da[0][0] >= db[-1][1]:
                        return False
            elif o == "&&":
                x, y = self.truth(st, a), self.truth(st, b)
                if x is False or y is False:
                    return False
                if x and y:
                    return True
            elif o == "||":
                x, y = self.truth(st, a), self.truth(st, b)
                if x or y:
                    return True
                if x is False and y is False:
                    return False
        d = self.dom(st, t)
        if d == ((0, 0),):
            return False
        if not iv_and(d, ((0, 0),)):
            return True
        return None

    def isfloat(self, t):
        return self.tyof.get(t, "") in ("double", "float", "long double")

    def assume(self, st, t, val):
        """refine st so that t is val; False if infeasible"""
        r = self.truth(st, t)
        if r is not None:
            return r == val
        if t.k == "not":
            return self.assume(st, t.a[0], not val)
        if t.k == "op":
            o, a, b = t.a[0], t.a[1], t.a[2]
            if o == "==" and b.k == "c":
                ok = self.meet(st, a, ((b.a[0],) * 2,) if val else iv_not(((b.a[0],) * 2,)))
                return ok
            if o == "==" and a.k == "c":
                return self.meet(st, b, ((a.a[0],) * 2,) if val else iv_not(((a.a[0],) * 2,)))
            if o == "<" and b.k == "c" and not self.isfloat(a):
                return self.meet(st, a, ((-BIG, b.a[0] - 1),) if val else ((b.a[0], BIG),))
            if o == "<" and a.k == "c" and not self.isfloat(b):
                return self.meet(st, b, ((a.a[0] + 1, BIG),) if val else ((-BIG, a.a[0]),))
            if o == "<" and not self.isfloat(a) and not self.isfloat(b):
                db = self.dom(st, b); da = self.dom(st, a)
                if db is not ALL and iv_size(db) == 1 and da is not ALL:
                    k = db[0][0]
                    if not self.meet(st, a, ((-BIG, k - 1),) if val else ((k, BIG),)):
                        return False
                elif da is not ALL and iv_size(da) == 1 and db is not ALL:
                    k = da[0][0]
                    if not self.meet(st, b, ((k + 1, BIG),) if val else ((-BIG, k),)):
                        return False
            if o == "&&" and val:
                return self.assume(st, a, True) and self.assume(st, b, True)
            if o == "||" and not val:
                return self.assume(st, a, False) and self.assume(st, b, False)
            if o == "==" and val and not self.isfloat(a):
                da = self.dom(st, a); db = self.dom(st, b); m = iv_and(da, db)
                if not m:
                    return False
                if m != da: self.meet(st, a, m)
                if m != db: self.meet(st, b, m)
        st.dom[t] = ((1, 1),) if val else ((0, 0),)
        if t.k not in ("op",) and not val:
            st.dom[t] = ((0, 0),)
        elif t.k != "op":
            st.dom[t] = iv_sub(self.dom_noself(t), ((0, 0),))
        return True

    def dom_noself(self, t):
        return self.rng(t)

    # ---- store ----
    def initial(self, st, loc):
        v = self.mon.load(self, st, loc)
        if v is not None:
            return v
        root = loc
        if loc.k == "G":
            g = self.global_value(loc.a[0])
            if g is not None:
                return g
        if loc.k == "I" and loc.a[1].k == "c":
            v = self.const_index(st, loc)
            if v is not None:
                return v
        if loc.k == "s":
            return loc
        if loc.k == "F" or loc.k == "I" and loc.a[1].k == "c":
            v = self.table_entry(loc)
            if v is not None:
                return v
        ver = 0
        b = loc
        while isinstance(b, Term):
            ver += st.ver.get(b, 0)
            if b.k in ("F", "I"):
                b = b.a[0]
            else:
                break
        return mk("ld", loc, ver) if ver else mk("ld", loc)

    def const_index(self, st, loc):
        path = []
        b = loc
        while b.k == "I" and b.a[1].k == "c":
            path.append(b.a[1].a[0]); b = b.a[0]
        if b.k == "s" and len(path) == 1:
            s = b.a[0]
            if 0 <= path[0] < len(s):
                return C(ord(s[path[0]]) if isinstance(s, str) else s[path[0]])
            if path[0] == len(s):
                return C(0)
            return None
        if b.k != "G":
            return None
        v = self.P.vars.get(b.a[0])
        if not v or "val" not in v:
            return None
        if "const" not in v["ty"]:
            return None
        x = v["val"]
        for i in reversed(path):
            if not isinstance(x, dict) or "arr" not in x:
                return None
            if not 0 <= i < len(x["arr"]):
                return None
            x = x["arr"][i]
        return self.apv(x)

    def apv(self, x):
        if isinstance(x, bool):
            return C(int(x))
        if isinstance(x, int):
            return C(x)
        if isinstance(x, float):
            return mk("f", x)
        if isinstance(x, str):
            return C(int(x)) if re.match(r"-?\d+$", x) else mk("f", float(x))
        if isinstance(x, dict):
            if x.get("null"):
                return NULL
            if "fn" in x:
                return mk("fn", x["fn"])
            if "addr" in x:
                if x.get("off"):
                    return None
                return mk("G", x["addr"])
            if "str" in x:
                s = x["str"]
                return mk("s", s if isinstance(s, str) else tuple(s))
        return None

    def global_value(self, usr):
        if usr in self._gval:
            return self._gval[usr]
        self._gval[usr] = None
        v = self.P.vars.get(usr)
        if v is None:
            return None
        ty = v["ty"]
        isconst = ty.startswith("const ") or " const" in ty
        if "*" in ty:
            isconst = ty.rstrip().endswith("const") or ty.startswith("const ") and ty.count("*") == 1 and "*const" in ty
        if not isconst and not v.get("assume_const"):
            return None
        r = None
        if "val" in v:
            r = self.apv(v["val"])
            if r is not None and r.k == "c" and bare(ty) in ("double", "float", "long double"):
                r = mk("f", float(r.a[0]))
        if r is None and "init" in v and v["init"] >= 0:
            r = self.eval_init(v)
        self._gval[usr] = r
        return r

    def eval_init(self, v):
        """fold the initialiser of a constant object (string constants and the like)"""
        return self.eval_node(v, v["init"])

    def table_entry(self, loc):
        """entry of a constant table (arrays and structs with a brace initialiser)"""
        path = []; b = loc
        while b.k == "F" or b.k == "I" and b.a[1].k == "c":
            path.append(b.a[1] if b.k == "I" else b.a[1]); b = b.a[0]
        if b.k != "G":
            return None
        key = (b, tuple(path))
        c = self._gval.get(key, self)
        if c is not self:
            return c
        self._gval[key] = None
        v = self.P.vars.get(b.a[0])
        if not v or "const" not in v["ty"] or v.get("init", -1) < 0 or "nodes" not in v:
            return None
        n = v["init"]; nodes = v["nodes"]
        for p in reversed(path):
            nd = nodes[n]
            while nd["k"] in ("cast", "paren") and "sub" in nd:
                n = nd["sub"]; nd = nodes[n]
            if nd["k"] != "init":
                return None
            if isinstance(p, Term):
                i = p.a[0]
            else:
                ty = nd.get("ty", "").replace("const ", "").strip()
                rs = self.P.rec_named(ty)
                i = next((j for j, f in enumerate(rs[0]["fields"]) if f["name"] == p), None) if rs else None
            if i is None or not 0 <= i < len(nd["args"]):
                return None
            n = nd["args"][i]
        r = self.eval_node(v, n) if nodes[n]["k"] != "init" else None
        self._gval[key] = r
        return r

    def eval_node(self, v, n0):
        nodes = v["nodes"]
        def ev(n, depth=0):
            nd = nodes[n]
            if "cv" in nd: return C(nd["cv"])
            if "fv" in nd: return mk("f", float(nd["fv"]))
            k = nd["k"]
            if k == "str":
                s = nd["v"]; return mk("s", s if isinstance(s, str) else tuple(s))
            if k == "cast": return ev(nd["sub"])
            if k == "ref" and nd["dk"] == "global":
                return self.global_value(nd["d"]) or mk("ld", mk("G", nd["d"]))
            if k == "fref": return mk("fn", nd["fn"])
            if k == "un" and nd["op"] == "&": return ev(nd["sub"])
            if k == "ctor":
                if nd.get("clsn", "").startswith("std::"):
                    a = [x for x in nd["args"]]
                    if not a: return mk("s", "")
                    return ev(a[0])
                if len(nd["args"]) == 1: return ev(nd["args"][0])
                return None
            if k == "call":
                f = self.P.fns.get(nd["fn"])
                args = [ev(x) for x in nd["args"]]
                if nd.get("short") == "sqrt" and len(args) == 1 and args[0] is not None and args[0].k == "f":
                    return mk("f", args[0].a[0] ** 0.5 if args[0].a[0] >= 0 else float("nan"))
                if f and all(a is not None for a in args):
                    A = AbsInt(self.P, Monitor(), max_steps=5000)
                    st = State()
                    try:
                        o = A.run_fn(f, st, None, args, None, -1, 0)
                    except Broken:
                        return None
                    o = [x for x in o if x.kind == "ret"]
                    if len(o) == 1:
                        return o[0].val
                return None
            return None
        try:
            return ev(n0)
        except (KeyError, TypeError, IndexError):
            return None

    def load(self, st, loc):
        if loc.k in ("el", "me", "mkey", "chel") or loc.k == "F" and loc.a[0].k in ("me", "el"):
            v = self.mon.load(self, st, loc)     # contents of a container element
            if v is not None:
                return v
        v = st.store.get(loc)
        if v is not None:
            return v
        return self.initial(st, loc)

    def set(self, st, loc, val):
        st.store[loc] = val

    def havoc_obj(self, st, base):
        """the contents of object `base` (fields included) become unknown"""
        for k in [k for k in st.store if k is not base and k.k in ("F", "I") and contains(k, base)]:
            del st.store[k]
        st.ver[base] = min(st.ver.get(base, 0) + 1, 6)
        st.store.pop(base, None)

    # ---- running a function ----
    def fid(self, parent, fn, node):
        key = (parent.fid if parent else self.salt, fn.id, node)
        f = self.fids.get(key)
        if f is None:
            f = len(self.fids) + 1
            self.fids[key] = f
        return f

    def run_fn(self, fn, st, this, args, parent, node, depth):
        fr = Frame(fn, self.fid(parent, fn, node), this, parent, node)
        self.inlined.add(fn.id)
        st = st.copy()
        for p, a in zip(fn.params, args):
            L = mk("L", fr.fid, p["d"])
            st.store[L] = a
            if a.k in ("T", "L") and a in self.exact and p["ty"].rstrip()[-1:] not in "&*" and any(k.k == "F" and k.a[0] is a for k in st.store):
                self.copy_obj(st, a, L)
                self.exact[L] = self.exact[a]
                st.store[L] = a
        if not fn.blocks:
            return [Outcome("ret", mk("void"), st)]
        heads = fn.heads(); cross = fn.crossing()
        done = []
        seen = {}
        # work items: (block, state, env, snapshots)
        work = [(fn.entry, st, {}, ())]
        first = True
        nstates = 0
        while work:
            b, s, env, snaps = work.pop()
            self.steps += 1
            if self.steps > self.max_steps:
                chain = []; x = fr
                while x is not None and len(chain) < 60:
                    chain.append(x.fn.short); x = x.parent
                raise Budget("step budget exceeded in %s" % " < ".join(chain))
            if b in heads:
                s, snaps = self.at_head(fr, b, s, env, snaps)
            # the first visit of a block needs no comparison: its state is only keyed when a second comes
            sb = seen.get(b)
            if sb is None:
                seen[b] = (s, env)
            else:
                if type(sb) is tuple:
                    sb = seen[b] = {state_key(sb[0], sb[1], cross)}
                key = state_key(s, env, cross)
                if key in sb:
                    continue
                sb.add(key)
            nstates += 1
            if nstates > self.max_states:
                raise Budget("state budget exceeded in %s" % fn.name)
            if b == fn.exit:
                done.append(self.finish(fr, s, env))
                continue
            for it in self.run_block(fr, b, s, env, depth):
                if it[0] == "go":
                    _, nb, ns, nenv = it
                    nenv = {k: v for k, v in nenv.items() if not isinstance(k, int) or k in cross}
                    work.append((nb, ns, nenv, snaps))
                else:
                    done.append(it[1])
        return done

    def at_head(self, fr, b, s, env, snaps):
        """widening at loop heads"""
        d = dict(snaps)
        ent = d.get(b)
        s = s.copy()
        self.mon.on_head(self, s, (fr.fid, b), ent is None)
        if ent is None:
            d[b] = (0, dict(s.store), None)
            return s, tuple(d.items())
        n, old, _ = ent
        n += 1
        bn = ("cst", fr.fid, b)
        if s.cnt.get(bn):            # last branch here was decided by constants: keep unrolling
            s.cnt.pop(bn)
            d[b] = (min(n, 1), dict(s.store), None)
            c2 = s.cnt.get(("cn", fr.fid, b), 0) + 1
            s.cnt[("cn", fr.fid, b)] = c2
            if c2 < 20000:
                return s, tuple(d.items())
        if n >= 1:
            for loc in set(old) | set(s.store):
                if old.get(loc) is not s.store.get(loc):
                    w = mk("w", fr.fid, b, loc)
                    v = s.store.get(loc) or old.get(loc)
                    if v is not None and v in self.tyof:
                        self.tyof[w] = self.tyof[v]
                    s.store[loc] = w
                    for k in [k for k in s.dom if contains(k, w)]:
                        del s.dom[k]
        d[b] = (min(n, 2), dict(s.store), None)
        return s, tuple(d.items())

    def finish(self, fr, s, env):
        val = env.get("ret")
        if val is None:
            val = fr.this if fr.fn.kind == "ctor" else mk("void")
        s = s.copy()
        self.mon.on_ret(self, s, fr.fn, val)
        self.pop_frame(fr, s, val)
        return Outcome("ret", val, s)

    def pop_frame(self, fr, s, val):
        f = fr.fid
        keepbase = val if isinstance(val, Term) else None
        for k in [k for k in s.store if k.rt == f]:
            if keepbase is not None and contains(k, keepbase) and k is not keepbase:
                continue
            del s.store[k]
        for k in [k for k in s.cnt if isinstance(k, tuple) and len(k) > 1 and k[1] == f]:
            del s.cnt[k]
        for k in [k for k in s.ver if k.rt == f]:
            del s.ver[k]

    def run_block(self, fr, b, s, env, depth):
        fn = fr.fn
        blk = fn.blocks[b]
        cur = [(s.copy(), dict(env))]
        out = []
        if "catch" in blk:
            nd = fn.nodes[blk["catch"]]
            if "d" in nd:
                for st, e in cur:
                    exc = e.get("exc")
                    L = mk("L", fr.fid, nd["d"])
                    st.store[L] = exc.val if exc is not None and exc.val is not None else mk("excobj", fr.fid, blk["catch"])
        for el in blk["e"]:
            nxt = []
            for st, e in cur:
                if e.get("halt"):
                    continue
                for r in self.element(fr, st, e, el, depth):
                    if r[0] == "ok":
                        nxt.append((r[1], r[2]))
                    else:
                        out += self.raise_(fr, r[1], r[2], r[3], r[4], depth)
            if len(nxt) > 400:
                seen = {}
                for st, e in nxt:
                    seen[(st.key(), tuple(sorted((str(k), getattr(v, "n", 0)) for k, v in e.items())))] = (st, e)
                nxt = list(seen.values())
            cur = nxt
            if not cur:
                break
        for st, e in cur:
            out += self.branch(fr, b, blk, st, e, depth)
        return out

    def branch(self, fr, b, blk, st, e, depth):
        succ = blk["s"]
        if not succ:
            return []
        t = blk.get("t")
        if t == "CXXTryStmt":
            return []
        if "c" in blk and t == "SwitchStmt":
            v = self.val(fr, st, e, blk["c"])
            out = []; default = None; taken = []
            for sb in succ:
                if sb is None: continue
                lab = fr.fn.blocks[sb]
                if "case" in lab:
                    # consecutive case labels fall through to one another as separate blocks
                    taken.append((lab["case"], sb))
                else:
                    default = sb
            rest = st.copy(); feasible = True
            for (lo, hi), sb in taken:
                s2 = st.copy()
                if v.k == "c":
                    if lo <= v.a[0] <= hi:
                        return [("go", sb, s2, e)]
                    continue
                if self.meet(s2, v, ((lo, hi),)):
                    out.append(("go", sb, s2, e))
                if feasible:
                    feasible = self.meet(rest, v, iv_not(((lo, hi),)))
            if default is not None and feasible:
                out.append(("go", default, rest, e))
            return out
        if "c" in blk and len(succ) == 2:
            v = self.val(fr, st, e, blk["c"])
            out = []
            r = self.truth(st, v)
            if b in fr.fn.heads() or t in ("ForStmt", "WhileStmt", "DoStmt"):
                pass
            if r is not None:
                tb = succ[0] if r else succ[1]
                if tb is None:
                    return []
                st = st.copy()
                if v.k == "c":
                    st.cnt[("cst", fr.fid, fr.fn.loop_of(b))] = 1
                return [("go", tb, st, e)]
            for i, tv in ((0, True), (1, False)):
                if succ[i] is None:
                    continue
                s2 = st.copy()
                if self.assume(s2, v, tv):
                    out.append(("go", succ[i], s2, e))
            return out
        return [("go", x, st, e) for x in succ[:1] if x is not None] if t != "SwitchStmt" else []

    # ---- exceptions ----
    def raise_(self, fr, st, env, exc, node, depth):
        """an exception leaves `node` in frame fr: find a handler, unwinding automatic objects on the way"""
        fn = fr.fn
        tries = fn.tries().get(node, ())
        out = []
        states = [(st, env)]
        for t in tries:
            # unwind the objects declared inside this try
            nxt = []
            for s, e in states:
                nxt += self.unwind(fr, s, e, lambda dn: t in fn.tries().get(dn, ()), depth)
            states = nxt
            caught = False
            for h in fn.nodes[t]["handlers"]:
                m = self.catches(exc, h)
                if m:
                    hb = [bb["id"] for bb in fn.blocks.values() if bb.get("catch") == h["id"]]
                    for s, e in states:
                        for x in hb:
                            e2 = dict(e); e2["exc"] = exc
                            out.append(("go", x, s.copy(), e2))
                    if m == "must":
                        caught = True
                        break
            if caught:
                return out
        for s, e in states:
            for s2, e2 in self.unwind(fr, s, e, lambda dn: True, depth):
                s2 = s2.copy()
                self.pop_frame(fr, s2, exc.val)
                out.append(("end", Outcome("throw", None, s2, exc)))
        return out

    def catches(self, exc, h):
        if h["ty"] == "...":
            return "must"
        if exc.rec is None:
            if exc.name and exc.name != "?":
                hn = base_name(bare(h["ty"])).split("::")[-1]
                if hn == exc.name.split("::")[-1]:
                    return "must"
                std = {"out_of_range": ("logic_error", "exception"), "bad_alloc": ("exception",), "runtime_error": ("exception",),
                       "logic_error": ("exception",), "invalid_argument": ("logic_error", "exception")}
                return "must" if hn in std.get(exc.name.split("::")[-1], ()) else None
            return "may"
        hr = h.get("rec")
        if hr is None:
            return None
        if hr in self.P.bases(exc.rec):
            return "must"
        # std bases may be unknown by id: compare names
        hn = self.P.recs[hr]["name"] if hr in self.P.recs else bare(h["ty"])
        for b in self.P.bases(exc.rec):
            if self.P.recs[b]["name"] == hn:
                return "must"
        return None

    def unwind(self, fr, st, env, inside, depth):
        live = env.get("live", ())
        states = [(st, env)]
        for ent in reversed(live):
            d, dt, dn = ent
            if not inside(dn):
                break
            nxt = []
            for s, e in states:
                e = dict(e); e["live"] = tuple(x for x in e.get("live", ()) if x != ent)
                f = self.P.fns.get(dt)
                if f is not None and depth < self.max_depth:
                    ev = self.mkev("dtor", fr, dn, f.id, f.name, f.short, f.cls, mk("L", fr.fid, d), [], [], depth)
                    if self.mon.inline(self, f, ev):
                        for o in self.run_fn(f, s, mk("L", fr.fid, d), [], fr, dn, depth + 1):
                            if o.kind == "ret":
                                nxt.append((o.st, e))
                        continue
                nxt.append((s, e))
            states = nxt
        return states

    # ---- elements ----
    def mkev(self, kind, fr, node, fn, name, short, cls, recv, args, vals, depth):
        ev = Event()
        ev.kind = kind; ev.fn = fn; ev.name = base_name(name); ev.short = short; ev.clsid = cls
        ev.cls = self.P.recs[cls]["name"].split("<")[0] if cls in self.P.recs else None
        ev.recv = recv; ev.args = args; ev.vals = vals; ev.node = node; ev.infn = fr.fn; ev.depth = depth
        ev.where = fr.fn.line(node) if node >= 0 else fr.fn.loc
        ev.virt = False; ev.const = False; ev.ty = ""; ev.static = False; ev.argtys = None; ev.res = None; ev.recvval = None
        ev.frame = fr
        return ev

    def element(self, fr, st, env, el, depth):
        if isinstance(el, int):
            return self.stmt(fr, st, env, el, depth)
        k = el["e"]
        if k == "minit":
            if el["init"] < 0:
                return [("ok", st, env)]
            v = self.val(fr, st, env, el["init"])
            if "f" in el:
                loc = mk("F", fr.this, el["f"])
                nd = fr.fn.nodes[el["init"]]
                if nd["k"] == "ctor" and v is loc:
                    return [("ok", st, env)]
                st = st.copy()
                if not el.get("isref"):
                    v = self.rval(st, v, nd)
                    if nd["k"] == "init" and not nd["args"]:
                        v = C(0)
                ev = self.mkev("init", fr, el["init"], None, el["f"], el["f"], fr.fn.cls, fr.this, [loc], [v], depth)
                self.mon.on_store(self, st, loc, v, ev)
                self.set(st, loc, v)
            return [("ok", st, env)]
        if k in ("dtor", "bdtor", "mdtor"):
            if k == "dtor":
                target = mk("L", fr.fid, el["d"])
                env = dict(env); env["live"] = tuple(x for x in env.get("live", ()) if x[0] != el["d"])
            elif k == "bdtor":
                target = fr.this
            else:
                target = mk("F", fr.this, el["f"])
            f = self.P.fns.get(el.get("fn"))
            if f is not None and depth < self.max_depth:
                ev = self.mkev("dtor", fr, -1, f.id, f.name, f.short, f.cls, target, [], [], depth)
                r = self.mon.on_call(self, st, ev)
                if r is None and self.mon.inline(self, f, ev):
                    out = []
                    for o in self.run_fn(f, st, target, [], fr, ("d", el.get("d", el.get("f", el.get("rec")))), depth + 1):
                        if o.kind == "ret":
                            out.append(("ok", o.st, env))
                    return out
            return [("ok", st, env)]
        return [("ok", st, env)]

    def rval(self, st, v, nd):
        """turn the value of expression node nd into an object value if it designates an object"""
        if nd.get("lv") and nd["k"] not in ("str",):
            return self.load(st, v)
        return v

    def val(self, fr, st, env, n):
        """value of an expression (already evaluated, or side-effect free)"""
        if n is None or n < 0:
            return mk("void")
        v = env.get(n)
        if v is not None:
            return v
        nd = fr.fn.nodes[n]
        r = self.pure(fr, st, env, n, nd)
        return r

    def local(self, fr, st, nd):
        if "outer" in nd:
            L = st.store.get(mk("cap", nd["outer"]))
            if L is not None:
                return L
            f = fr.parent
            while f is not None:
                for p in f.fn.params:
                    if p.get("key") == nd["outer"]:
                        L = mk("L", f.fid, p["d"]); return self.load(st, L) if nd.get("isref") else L
                for x in f.fn.nodes.values():
                    if x["k"] == "decl":
                        for vv in x["vars"]:
                            if vv.get("key") == nd["outer"] and "d" in vv:
                                L = mk("L", f.fid, vv["d"]); return self.load(st, L) if nd.get("isref") else L
                f = f.parent
            return mk("cap", nd["outer"])
        L = mk("L", fr.fid, nd["d"])
        if nd.get("isref"):
            v = st.store.get(L)
            return v if v is not None else L
        # by-value class parameter of an analysed root: its value is the symbolic parameter
        return L

    def pure(self, fr, st, env, n, nd):
        if "cv" in nd:
            return C(nd["cv"])
        if "cvs" in nd:
            return mk("c", int(nd["cvs"]))
        k = nd["k"]
        if "fv" in nd:
            return mk("f", float(nd["fv"]))
        if k == "str":
            v = nd["v"]
            return mk("s", v if isinstance(v, str) else tuple(v))
        if k == "ref":
            if nd["dk"] == "local":
                return self.local(fr, st, nd)
            if nd["dk"] == "global":
                g = mk("G", nd["d"])
                if nd.get("isref"):
                    return self.load(st, g)
                return g
            return mk("refother", nd.get("name", ""))
        if k == "fref":
            return mk("fn", nd["fn"])
        if k == "mref":
            return mk("fn", nd["fn"])
        if k == "this":
            if fr.fn.short == "operator()" and fr.lam is not None:
                return fr.lam
            return fr.this
        if k == "member":
            b = self.val(fr, st, env, nd["base"])
            loc = mk("F", b, nd["f"])
            if nd.get("isref"):
                return self.load(st, loc)
            if not nd.get("lv"):
                return self.load(st, loc)
            return loc
        if k == "cast":
            return self.cast(fr, st, env, n, nd)
        if k == "dyncast":
            v = self.val(fr, st, env, nd["sub"])
            if v.k == "c":
                return v
            x = self.exact.get(v)
            if x is not None and "rec" in nd:
                return v if nd["rec"] in self.P.bases(x) else NULL
            r = self.mon.dyncast(self, st, v, nd.get("rec"))
            if r is not None:
                return r
            return mk("dyncast", nd.get("rec", bare(nd["ty"])), v)
        if k == "un":
            op = nd["op"]
            v = self.val(fr, st, env, nd["sub"])
            if op in ("*", "&"):
                return v
            if op == "!":
                r = self.truth(st, v)
                if r is not None:
                    return C(not r)
                return v.a[0] if v.k == "not" else mk("not", v)
            if op == "-":
                if v.k == "c": return C(wrap(-v.a[0], nd["ty"]))
                if v.k == "f": return mk("f", -v.a[0])
                if bare(nd["ty"]) in ("double", "float", "long double"): return self.typed(mk("neg", v), nd)
                return self.typed(mk("op", "-", C(0), v), nd)
            if op == "~":
                if v.k == "c": return C(wrap(~v.a[0], nd["ty"]))
                return self.typed(mk("un", "~", v), nd)
            if op == "+":
                return v
            return mk("un", op, v)
        if k == "bin":
            return self.binop(fr, st, env, n, nd)
        if k == "cond":
            c = self.truth(st, self.val(fr, st, env, nd["c"]))
            if c is True:
                return self.val(fr, st, env, nd["a"])
            if c is False:
                return self.val(fr, st, env, nd["b"])
            return self.typed(mk("cond", self.val(fr, st, env, nd["c"]), self.val(fr, st, env, nd["a"]), self.val(fr, st, env, nd["b"])), nd)
        if k == "index":
            a = self.val(fr, st, env, nd["a"]); b = self.val(fr, st, env, nd["b"])
            return self.padd(st, a, b)
        if k == "zero":
            return C(0)
        if k == "init":
            if len(nd["args"]) == 1 and not nd["ty"].endswith("]"):
                x = nd["args"][0]
                return self.rval(st, self.val(fr, st, env, x), fr.fn.nodes[x])
            return mk("init", *[self.val(fr, st, env, x) for x in nd["args"][:400]])
        if k == "lambda":
            return mk("lam", nd["fn"], mk("T", fr.fid, n))
        if k == "typeid":
            return mk("typeid", bare(nd["ty"]))
        if k in ("call", "ctor"):
            # a call that is not a CFG element (default argument): opaque value
            return mk("r", fr.fid, n, 0)
        return mk("x", fr.fid, n)

    def typed(self, t, nd):
        if t not in self.tyof:
            self.tyof[t] = bare(nd["ty"])
        return t

    def cast(self, fr, st, env, n, nd):
        v = self.val(fr, st, env, nd["sub"])
        ck = nd["ck"]
        if ck == "LValueToRValue" and fr.fn.nodes[nd["sub"]]["k"] == "member" and not fr.fn.nodes[nd["sub"]].get("lv"):
            return self.val(fr, st, env, nd["sub"])          # a member of a temporary: already its value
        if ck == "LValueToRValue":
            r = self.load(st, v)
            if r.k not in ("c", "f", "s") and r not in self.tyof:
                self.tyof[r] = bare(nd["ty"])
            return r
        if ck == "IntegralCast" or ck == "BooleanToSignedIntegral":
            ty = bare(nd["ty"])
            if v.k == "c":
                return C(wrap(v.a[0], ty))
            r = int_range(ty)
            if r is None:
                return v
            d = self.rng(v)
            if v.k == "cast" and d is ALL:
                d = self.dom(st, v)
            if d is not ALL and iv_sub(d, r) == ():
                return v
            d = self.dom(st, v)
            if d is not ALL and iv_sub(d, r) == () and iv_size(d) == 1:
                return C(d[0][0])
            return self.typed(mk("cast", ty, v), nd)
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
            r = self.truth(st, v)
            if r is not None:
                return C(r)
            if self.tyof.get(v) == "bool" or v.k == "not" or (v.k == "op" and v.a[0] in ("==", "<", "&&", "||")):
                return v
            return mk("not", mk("op", "==", v, C(0)))
        if ck == "IntegralToFloating":
            if v.k == "c":
                return mk("f", float(v.a[0]))
            return self.typed(mk("cast", bare(nd["ty"]), v), nd)
        if ck == "FloatingToIntegral":
            if v.k == "f":
                r = int_range(bare(nd["ty"]))
                try:
                    if r is None or any(a <= int(v.a[0]) <= b for a, b in r):
                        return C(int(v.a[0]))
                except (OverflowError, ValueError):
                    pass
                return mk("cast", bare(nd["ty"]), v)        # undefined
            return self.typed(mk("cast", bare(nd["ty"]), v), nd)
        if ck == "FloatingCast":
            return v
        if ck in ("NullToPointer", "NullToMemberPointer"):
            return NULL
        if ck == "ToVoid":
            return mk("void")
        if ck == "ArrayToPointerDecay" and v.k != "s":
            return mk("I", v, C(0))
        return v

    def padd(self, st, p, i):
        """pointer p plus index i"""
        if p.k == "I":
            return mk("I", p.a[0], self.iadd(st, p.a[1], i))
        if i.k == "c" and i.a[0] == 0 and p.k != "s":
            return p
        return mk("I", p, i)

    def iadd(self, st, a, b):
        return self.arith(st, "+", a, b, {"ty": "long"})

    def pbase(self, p):
        if p.k == "I":
            return p.a[0], p.a[1]
        return p, C(0)

    def binop(self, fr, st, env, n, nd):
        op = nd["op"]
        a = self.val(fr, st, env, nd["a"])
        if op == "&&":
            r = self.truth(st, a)
            if r is False: return FALSE
            b = self.val(fr, st, env, nd["b"])
            if r is True: return b
            return self.typed(mk("op", "&&", a, b), nd)
        if op == "||":
            r = self.truth(st, a)
            if r is True: return TRUE
            b = self.val(fr, st, env, nd["b"])
            if r is False: return b
            return self.typed(mk("op", "||", a, b), nd)
        b = self.val(fr, st, env, nd["b"])
        if op == ",":
            return b
        return self.arith(st, op, a, b, nd, fr)

    def arith(self, st, op, a, b, nd, fr=None):
        ty = nd["ty"]
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.compare(st, op, a, b)
        if (ty.rstrip(" const").endswith("*") or "(*)" in ty) and op in ("+", "-"):
            if op == "-":
                b = C(-b.a[0]) if b.k == "c" else mk("op", "-", C(0), b)
            return self.padd(st, a, b)
        if op == "-" and a.k not in ("c", "f") and b.k not in ("c", "f"):
            (ba, ia), (bb, ib) = self.pbase(a), self.pbase(b)
            if ba is bb and (a.k == "I" or b.k == "I"):
                return self.arith(st, "-", ia, ib, {"ty": "long"})
        if a.k == "c" and b.k == "c":
            x, y = a.a[0], b.a[0]
            try:
                if op == "+": r = x + y
                elif op == "-": r = x - y
                elif op == "*": r = x * y
                elif op == "/": r = int(abs(x) // abs(y)) * (1 if (x >= 0) == (y >= 0) else -1)
                elif op == "%": r = abs(x) % abs(y) * (1 if x >= 0 else -1)
                elif op == "&": r = x & y
                elif op == "|": r = x | y
                elif op == "^": r = x ^ y
                elif op == "<<": r = x << y
                elif op == ">>": r = x >> y
                else: r = None
                if r is not None:
                    return C(wrap(r, ty))
            except (ZeroDivisionError, ValueError):
                pass
        if a.k == "f" and b.k == "f":
            try:
                x, y = a.a[0], b.a[0]
                r = {"+": x + y, "-": x - y, "*": x * y}.get(op)
                if r is None and op == "/":
                    r = x / y if y != 0 else float("nan") if x != x or y != y or x == 0 else math.copysign(math.inf, x) * math.copysign(1, y)
                if r is not None: return mk("f", r)
            except (OverflowError, ZeroDivisionError):
                pass
        isint = int_range(ty) is not None
        if isint and op in ("+", "*", "&", "|", "^") and a.k == "c" and b.k != "c":
            a, b = b, a
        if isint and op == "+" and b.k == "c":
            if b.a[0] == 0: return a
            if a.k == "op" and a.a[0] == "+" and a.a[2].k == "c" and self.tyof.get(a) == bare(ty):
                return self.arith(st, "+", a.a[1], C(wrap(a.a[2].a[0] + b.a[0], ty)), nd)
            if b.a[0] < 0:
                pass
        if isint and op == "-" and b.k == "c":
            if b.a[0] == 0: return a
            return self.arith(st, "+", a, C(-b.a[0]), nd)
        if isint and op == "-" and a is b:
            return C(0)
        return self.typed(mk("op", op, a, b), nd)

    def size_of(self, v):
        """number of elements of a library container or string whose value is v"""
        if v.k == "s":
            return C(len(v.a[0]))
        if v.k == "ctor" and len(v.a) == 1:
            return C(0)
        t = mk("size", v)
        self.tyof[t] = "unsigned long"
        return t

    def compare(self, st, op, a, b):
        if op in ("==", "!="):
            if b.k == "s" and a.k not in ("s", "c", "I") and len(b.a[0]) == 0:
                return self.compare(st, op, self.size_of(a), C(0))
            if a.k == "s" and b.k not in ("s", "c", "I") and len(a.a[0]) == 0:
                return self.compare(st, op, self.size_of(b), C(0))
        if a.k == "f" and b.k == "f":
            x, y = a.a[0], b.a[0]
            return C({"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op])
        if (a.k == "I" or b.k == "I") and a is not b:
            (ba, ia), (bb, ib) = self.pbase(a), self.pbase(b)
            if ba is bb:
                return self.compare(st, op, ia, ib)
        if self.mon.addresses is not None and op in ("<", ">", "<=", ">=") and a.k in ("N", "new", "alloc", "elem") and b.k in ("N", "new", "alloc", "elem"):
            x, y = self.mon.addresses(a), self.mon.addresses(b)
            return C({"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op])
        fl = self.isfloat(a) or self.isfloat(b) or a.k == "f" or b.k == "f"
        neg = False
        if op == "!=":
            op = "=="; neg = True
        if op == ">":
            a, b, op = b, a, "<"
        if op == "<=" and not fl:
            a, b, op, neg = b, a, "<", True
        if op == ">=" and not fl:
            op, neg = "<", True
        if op == ">=" and fl:
            a, b, op = b, a, "<="
        if op == "==":
            if a.k == "c" and b.k != "c":
                a, b = b, a
            elif b.k != "c" and a.n > b.n:
                a, b = b, a
        t = mk("op", op, a, b)
        self.tyof.setdefault(t, "bool")
        r = self.truth(st, t)
        if r is not None:
            return C(r != neg)
        return mk("not", t) if neg else t

    # ---- statements with effects ----
    def stmt(self, fr, st, env, n, depth):
        fn = fr.fn
        nd = fn.nodes[n]
        k = nd["k"]
        self.covered.add((fn.id, n))
        if "cv" in nd and k not in ("assign", "call", "un"):
            env = dict(env); env[n] = C(nd["cv"])
            return [("ok", st, env)]
        if k == "decl":
            return self.decl(fr, st, env, n, nd, depth)
        if k == "assign":
            return self.assign(fr, st, env, n, nd, depth)
        if k == "un" and nd["op"] in ("++", "--", "++p", "--p"):
            loc = self.val(fr, st, env, nd["sub"])
            old = self.load(st, loc)
            if old.k not in ("c",) and old not in self.tyof:
                self.tyof[old] = bare(nd["ty"])
            new = self.arith(st, "+" if nd["op"][0] == "+" else "-", old, C(1), nd)
            st = st.copy(); env = dict(env)
            ev = self.mkev("store", fr, n, None, "++", "++", None, loc, [loc], [new], depth)
            self.mon.on_store(self, st, loc, new, ev)
            self.set(st, loc, new)
            env[n] = old if nd["op"].endswith("p") else (loc if nd.get("lv") else new)
            return [("ok", st, env)]
        if k == "ret":
            env = dict(env)
            v = mk("void")
            if nd.get("sub", -1) >= 0:
                v = self.val(fr, st, env, nd["sub"])
                sn = fn.nodes[nd["sub"]]
                if not fn.ret.endswith("&"):
                    v = self.rval(st, v, sn)
                    # an object under construction returned by value moves to the caller
            env["ret"] = v
            return [("ok", st, env)]
        if k == "throw":
            if nd.get("sub", -1) >= 0:
                sv = self.val(fr, st, env, nd["sub"])
                sub = fn.nodes[nd["sub"]]
                args = self.exc_args(fr, st, env, sub)
                exc = Exc(nd.get("rec"), base_name(bare(nd.get("tty", "?"))), sv, fn.line(n), args)
            else:
                exc = env.get("exc") or Exc(None, "?", None, fn.line(n))
            st = st.copy()
            self.mon.on_throw(self, st, exc)
            return [("throw", st, env, exc, n)]
        if k == "call":
            return self.call(fr, st, env, n, nd, depth)
        if k == "ctor":
            return self.ctor(fr, st, env, n, nd, depth)
        if k == "new":
            st = st.copy(); env = dict(env)
            init = nd.get("init", -1)
            t = None
            if init >= 0 and fn.nodes[init]["k"] == "ctor" and not nd.get("array"):
                t = self.val(fr, st, env, init)
                if t.k != "new":
                    t0 = mk("new", fr.fid, n, 0)
                    st.store[t0] = t
                    t = t0
            if t is None:
                t = self.fresh_new(fr, st, n)
                if init >= 0 and not nd.get("array"):
                    iv = self.val(fr, st, env, init)
                    st.store[t] = self.rval(st, iv, fn.nodes[init])
            if "rec" in nd:
                self.exact[t] = nd["rec"]
            ev = self.mkev("new", fr, n, None, bare(nd["aty"]), "new", nd.get("rec"), t, [], [], depth)
            self.mon.on_call(self, st, ev)
            env[n] = t
            return [("ok", st, env)]
        if k == "delete":
            return self.delete(fr, st, env, n, nd, depth)
        if k == "lambda":
            st = st.copy(); env = dict(env)
            t = mk("lam", nd["fn"], fr.fid, n)
            self.exact[t] = nd.get("rec")
            for c in nd.get("caps", []):
                if c.get("this"):
                    st.store[mk("F", t, "$this")] = fr.this
                elif "decl" in c:
                    L = mk("L", fr.fid, c["d"])
                    isref = False
                    src = st.store.get(L)
                    # references captured: the referent
                    loc = L
                    for p in fn.params:
                        if p["d"] == c["d"] and p["ty"].rstrip().endswith("&"): loc = src or L
                    for x in fn.nodes.values():
                        if x["k"] == "decl":
                            for vv in x["vars"]:
                                if vv.get("d") == c["d"] and vv.get("isref"): loc = src or L
                    if c.get("byref"):
                        st.store[mk("cap", c["decl"])] = loc
                    else:
                        T = mk("F", t, "$" + c["name"])
                        st.store[T] = self.load(st, loc)
                        st.store[mk("cap", c["decl"])] = T
            env[n] = t
            return [("ok", st, env)]
        if k == "stmt":
            return [("ok", st, env)]
        env = dict(env)
        env[n] = self.pure(fr, st, env, n, nd)
        return [("ok", st, env)]

    def exc_args(self, fr, st, env, sub):
        out = []
        seen = 0
        while sub["k"] in ("cast",) or (sub["k"] == "ctor" and sub.get("copy") and len(sub["args"]) == 1):
            sub = fr.fn.nodes[sub["sub"] if sub["k"] == "cast" else sub["args"][0]]
            seen += 1
            if seen > 5: break
        for a in sub.get("args", []) or []:
            v = self.val(fr, st, env, a)
            out.append(self.rval(st, v, fr.fn.nodes[a]))
        return tuple(out)

    def fresh_new(self, fr, st, n):
        key = ("nw", fr.fid, n)
        c = st.cnt.get(key, 0)
        st.cnt[key] = min(c + 1, 3)
        t = mk("new", fr.fid, n, c)
        if self.unique_new:                 # an object made here in an earlier call is another object
            while c < 64 and any(k.k == "F" and contains(k, t) for k in st.store):
                c += 1
                t = mk("new", fr.fid, n, c)
        self.wipe(st, t)
        return t

    def wipe(self, st, t):
        for k in [k for k in st.store if contains(k, t)]:
            del st.store[k]
        for k in [k for k in st.dom if contains(k, t)]:
            del st.dom[k]
        st.ver.pop(t, None)

    def decl(self, fr, st, env, n, nd, depth):
        st = st.copy(); env = dict(env)
        for v in nd["vars"]:
            if "d" not in v:
                # static local: initialised once; treat the initialiser as its contents if not already there
                if "g" in v and v.get("init", -1) >= 0:
                    g = mk("G", v["g"])
                    if v.get("rec") and not v.get("isref") and fr.fn.nodes[v["init"]]["k"] == "ctor":
                        self.exact.setdefault(g, v["rec"])
                    if self.mon.whole and v.get("rec") and not v.get("isref"):
                        if mk("static", g) not in st.store:
                            x = self.rval(st, self.val(fr, st, env, v["init"]), fr.fn.nodes[v["init"]])
                            if x.k in ("T", "L", "F", "G"): self.copy_obj(st, x, g)
                            else: st.store[g] = x
                            self.exact[g] = v["rec"]; st.store[mk("static", g)] = C(1)
                        continue
                    cst = v.get("ty", "").startswith("const ") or self.never_written(fr.fn, v["g"])
                    if g not in st.store and (cst or fr.fn.nodes[v["init"]]["k"] not in ("ctor", "init")):
                        iv = self.val(fr, st, env, v["init"])
                        if iv.k == "T" and iv in st.store:
                            iv = st.store[iv]
                        if iv.k in ("c", "s", "f", "fn", "new"):
                            st.store[g] = iv
                continue
            L = mk("L", fr.fid, v["d"])
            if "dtor" in v and v["dtor"] in self.P.fns and not v.get("isref"):
                env["live"] = env.get("live", ()) + ((v["d"], v["dtor"], n),)
            if v.get("init", -1) < 0:
                for k in [k for k in st.store if k.k in ("F", "I") and contains(k, L)]:
                    del st.store[k]
                st.store[L] = mk("undef", fr.fid, v["d"])
                continue
            ind = fr.fn.nodes[v["init"]]
            iv = self.val(fr, st, env, v["init"])
            if v.get("isref"):
                if not ind.get("lv") and iv.k not in ("T", "L", "F", "new", "p", "this", "G", "I"):
                    # reference to a temporary value
                    T = mk("T", fr.fid, v["init"])
                    st.store[T] = iv
                    iv = T
                st.store[L] = iv
            else:
                if iv is L:
                    continue
                x = self.rval(st, iv, ind)
                if ind["k"] == "init" and v["ty"].endswith("]"):
                    for k in [k for k in st.store if k.k == "I" and k.a[0] is L]:
                        del st.store[k]
                    for i, a in enumerate(ind["args"]):
                        st.store[mk("I", L, C(i))] = self.rval(st, self.val(fr, st, env, a), fr.fn.nodes[a])
                    continue
                if x.k in ("T", "L", "new") and v.get("rec"):
                    self.copy_obj(st, x, L)
                    self.exact[L] = v["rec"]
                    st.store.setdefault(L, mk("copyof", x))
                    continue
                st.store[L] = x
                ev = self.mkev("decl", fr, n, None, v["name"], v["name"], None, L, [L], [x], depth)
                self.mon.on_store(self, st, L, x, ev)
        return [("ok", st, env)]

    def never_written(self, fn, g):
        """static local g of fn is only read: it is returned by value or const reference, converted or compared, never the
        object of an assignment, a non-const call or a call argument"""
        key = ("nw", fn.id, g)
        r = self._gval.get(key)
        if r is None:
            refs = {n for n, nd in fn.nodes.items() if nd["k"] == "ref" and nd.get("d") == g}
            r = not (fn.ret.rstrip().endswith("&") and not fn.ret.startswith("const ") and " const &" not in fn.ret)
            for n, nd in fn.nodes.items():
                if not r:
                    break
                if nd["k"] == "assign" and nd["a"] in refs: r = False
                if nd["k"] == "un" and nd["op"] in ("++", "--", "++p", "--p", "&") and nd["sub"] in refs: r = False
                if nd["k"] == "call" and (nd.get("recv") in refs and not nd.get("const") or any(a in refs for a in nd["args"])): r = False
                if nd["k"] == "lambda": r = False
            self._gval[key] = r
        return r

    def copy_obj(self, st, src, dst):
        if src is dst:
            return
        for k in [k for k in st.store if k.k in ("F", "I") and contains(k, dst)]:
            del st.store[k]
        for k, v in list(st.store.items()):
            if k is not src and k.k in ("F", "I") and contains(k, src):
                st.store[subst(k, src, dst)] = v
        if src in st.store:
            st.store[dst] = st.store[src]

    def assign(self, fr, st, env, n, nd, depth):
        loc = self.val(fr, st, env, nd["a"])
        v = self.val(fr, st, env, nd["b"])
        st = st.copy(); env = dict(env)
        if nd["op"] != "=":
            old = self.load(st, loc)
            if old.k != "c" and old not in self.tyof:
                self.tyof[old] = bare(nd["ty"])
            v = self.arith(st, nd["op"][:-1], old, v, nd)
        elif fr.fn.nodes[nd["b"]].get("lv"):
            v = self.load(st, v)
        ev = self.mkev("store", fr, n, None, "=", "=", None, loc, [loc], [v], depth)
        self.mon.on_store(self, st, loc, v, ev)
        # indexed store with unknown index invalidates the array
        if loc.k == "I" and loc.a[1].k != "c":
            for k in [k for k in st.store if k.k == "I" and k.a[0] is loc.a[0]]:
                del st.store[k]
        self.set(st, loc, v)
        env[n] = loc if nd.get("lv") else v
        return [("ok", st, env)]

    def delete(self, fr, st, env, n, nd, depth):
        p = self.val(fr, st, env, nd["sub"])
        st = st.copy()
        ev = self.mkev("delete", fr, n, nd.get("fn"), "delete", "delete", nd.get("rec"), p, [p], [p], depth)
        self.mon.on_delete(self, st, ev)
        r = self.mon.on_call(self, st, ev)
        if r is not None:
            return [("ok", s, env) for s, _ in r]
        outs = [("ok", st, env)]
        rec = self.exact.get(p) or nd.get("rec")
        dts = None
        if rec:
            f = self.P.fns.get(nd.get("fn"))
            if p in self.exact and f is not None:
                fo = self.P.final_overrider(rec, f.id)
                f = self.P.fns.get(fo) or f
            if f is not None and not (f.virt and p not in self.exact) and depth < self.max_depth and self.mon.inline(self, f, ev):
                outs = []
                s0 = st.copy()
                if self.truth(s0, p) is None:
                    s1 = st.copy()
                    if self.meet(s1, p, ((0, 0),)):
                        outs.append(("ok", s1, env))
                if self.meet(s0, p, iv_not(((0, 0),))):
                    for o in self.run_fn(f, s0, p, [], fr, n, depth + 1):
                        if o.kind == "ret":
                            outs.append(("ok", o.st, env))
        return outs

    # ---- construction ----
    def ctor_target(self, fr, st, n):
        fn = fr.fn
        tm = getattr(self, "_ctm", None)
        if tm is None:
            tm = self._ctm = {}
        m = tm.get(fn.id)
        if m is None:
            m = {}
            for x, nd in fn.nodes.items():
                if nd["k"] == "decl":
                    for v in nd["vars"]:
                        if v.get("init", -1) >= 0 and "d" in v and fn.nodes[v["init"]]["k"] == "ctor" and not v.get("isref"):
                            m[v["init"]] = ("L", v["d"], v.get("rec"))
                if nd["k"] == "new" and nd.get("init", -1) >= 0 and fn.nodes[nd["init"]]["k"] == "ctor":
                    m[nd["init"]] = ("new", x, nd.get("rec"))
            for b in fn.blocks.values():
                for e in b["e"]:
                    if not isinstance(e, int) and e["e"] == "minit" and e["init"] >= 0 and fn.nodes[e["init"]]["k"] == "ctor":
                        m[e["init"]] = ("F", e["f"], None) if "f" in e else ("B", e.get("base"), None)
            tm[fn.id] = m
        t = m.get(n)
        if t is None:
            return mk("T", fr.fid, n), None
        if t[0] == "L":
            return mk("L", fr.fid, t[1]), t[2]
        if t[0] == "new":
            x = self.fresh_new(fr, st, t[1])
            if t[2]:
                self.exact[x] = t[2]
            return x, t[2]
        if t[0] == "F":
            return mk("F", fr.this, t[1]), None
        return fr.this, None

    def ctor(self, fr, st, env, n, nd, depth):
        st = st.copy(); env = dict(env)
        target, rec = self.ctor_target(fr, st, n)
        args = []; vals = []
        for a in nd["args"]:
            v = self.val(fr, st, env, a)
            args.append(v)
            vals.append(self.rval(st, v, fr.fn.nodes[a]))
        cls = nd.get("cls")
        isrepo = cls in self.P.recs and self.P.recs[cls]["repo"]
        f = self.P.fns.get(nd["fn"])
        base_init = target is fr.this
        if not base_init and not isrepo:
            # library value type: its value is what it was made from
            if nd.get("copy") and args:
                v = vals[0]
            elif not args:
                v = mk("s", "") if "basic_string" in (nd.get("clsn") or "") else mk("ctor", nd.get("clsn") or "?")
            elif len(args) >= 1 and vals[0].k == "s" and "basic_string" in (nd.get("clsn") or "") and len([x for x in vals if x.k != "r"]) <= 2 \
                    and not (len(vals) > 1 and vals[1].k == "c"):
                v = vals[0]
            else:
                vs = list(vals)
                if "basic_string" in (nd.get("clsn") or "") and len(vs) == 2 and (vs[1].k == "r" or vs[1].k == "ctor"):
                    vs = vs[:1]      # allocator argument
                v = vs[0] if len(vs) == 1 and "basic_string" in (nd.get("clsn") or "") and vs[0].k in ("s",) else mk("ctor", base_name(nd.get("clsn") or "?"), *vs)
            ev = self.mkev("ctor", fr, n, nd["fn"], nd["name"], nd["short"], cls, target, args, vals, depth)
            r = self.mon.on_call(self, st, ev)
            out = []
            if r is not None:
                for s2, v2 in r:
                    e2 = dict(env); s2.store[target] = v2; e2[n] = v2 if target.k == "T" else target
                    out.append(("ok", s2, e2))
                return out
            xn = self.mon.may_throw(self, st, ev)
            if xn:
                out.append(("throw", st.copy(), env, Exc(None, xn, None, ev.where), n))
            for k in [k for k in st.store if k is not target and k.k in ("F", "I") and contains(k, target)]:
                del st.store[k]
            if target.k == "F":
                self.mon.on_store(self, st, target, v, ev)
            st.store[target] = v
            env[n] = v if target.k == "T" else target
            out.append(("ok", st, env))
            return out
        ev = self.mkev("ctor", fr, n, nd["fn"], nd["name"], nd["short"], cls, target, args, vals, depth)
        r = self.mon.on_call(self, st, ev)
        if r is not None:
            out = []
            for s2, v2 in r:
                e2 = dict(env)
                if not base_init:
                    if v2 is not None and v2 is not target:
                        s2.store[target] = v2
                    e2[n] = v2 if target.k == "T" and v2 is not None else target
                else:
                    e2[n] = target
                out.append(("ok", s2, e2))
            return out
        if not base_init:
            self.exact[target] = cls
            if target.k in ("T", "L"):
                for k in [k for k in st.store if k is not target and k.k in ("F", "I") and contains(k, target)]:
                    del st.store[k]
        if f is not None and f.blocks and depth < self.max_depth and self.rec_ok(fr, f) and self.mon.inline(self, f, ev):
            out = []
            a2 = self.bind(fr, st, env, f, nd["args"], args)
            for o in self.run_fn(f, st, target, a2, fr, n, depth + 1):
                if o.kind == "ret":
                    e2 = dict(env); e2[n] = target
                    if not base_init:
                        o.st.store.setdefault(target, mk("obj", target))
                    out.append(("ok", o.st, e2))
                else:
                    out.append(("throw", o.st, env, o.exc, n))
            return out
        # implicit or opaque constructor
        out = []
        xn = self.mon.may_throw(self, st, ev)
        if xn:
            out.append(("throw", st.copy(), env, Exc(None, xn, None, ev.where), n))
        if nd.get("copy") and args:
            if f is None and (isrepo or self.mon.whole and args[0].k in ("T", "L", "F", "G", "new", "p")):
                self.copy_obj(st, args[0], target)
            if not base_init:
                st.store[target] = vals[0]
            elif not isrepo and args[0] in st.store:
                st.store[target] = st.store[args[0]]     # a library container as base class
        elif not base_init:
            st.store[target] = mk("ctor", base_name(nd.get("clsn") or "?"), *vals)
        env[n] = target if (target.k != "T" or any(k.k == "F" and contains(k, target) for k in st.store)) else st.store.get(target, target)
        out.append(("ok", st, env))
        return out

    def bind(self, fr, st, env, f, argnodes, args):
        """argument bindings for callee f: locations for reference parameters, values otherwise"""
        out = []
        for i, a in enumerate(args):
            nd = fr.fn.nodes[argnodes[i]] if i < len(argnodes) else None
            pty = f.params[i]["ty"] if i < len(f.params) else ""
            if pty.rstrip().endswith("&"):
                if nd is not None and not nd.get("lv") and (a.k not in ("T", "L", "F", "new", "p", "this", "G", "I") or
                                                            nd.get("ty", "").rstrip().endswith(("*", "*const")) and "*" in pty):
                    T = mk("T", fr.fid, argnodes[i])
                    st.store[T] = a
                    a = T
                out.append(a)
            else:
                out.append(self.rval(st, a, nd) if nd is not None else a)
        return out

    def rec_ok(self, fr, f):
        c = 0; x = fr
        while x is not None:
            if x.fn is f:
                c += 1
            x = x.parent
        return c < self.max_rec

    # ---- calls ----
    def call(self, fr, st, env, n, nd, depth):
        self.calls += 1
        st = st.copy(); env = dict(env)
        fn = fr.fn
        fid = nd.get("fn")
        recv = None
        if "recv" in nd:
            recv = self.val(fr, st, env, nd["recv"])
        args = []; vals = []
        for a in nd["args"]:
            v = self.val(fr, st, env, a)
            args.append(v); vals.append(self.rval(st, v, fn.nodes[a]))
        if fid is None and "fnptr" in nd:
            fp = self.val(fr, st, env, nd["fnptr"])
            fpn = fn.nodes[nd["fnptr"]]
            if "pm" in nd or fpn.get("op") in (".*", "->*"):
                bn = fpn
                recv = self.val(fr, st, env, bn["a"])
                fp = self.val(fr, st, env, bn["b"])
                fp = self.rval(st, fp, fn.nodes[bn["b"]])
            elif fpn.get("lv"):
                fp = self.load(st, fp)
            if fp.k == "fn":
                fid = fp.a[0]
            else:
                ev = self.mkev("call", fr, n, None, "<indirect>", "<indirect>", None, recv, args, vals, depth)
                ev.res = fp
                r = self.mon.indirect(self, st, ev, fp)
                if r is not None:
                    return [("ok", s2, {**env, n: v2}) for s2, v2 in r]
                return self.opaque_call(fr, st, env, n, nd, ev, None)
        f = self.P.fns.get(fid)
        name = nd.get("name") or (f.name if f else "?")
        short = nd.get("short") or (f.short if f else "?")
        cls = nd.get("cls") or (f.cls if f else None)
        ev = self.mkev("call", fr, n, fid, name, short, cls, recv, args, vals, depth)
        ev.virt = nd.get("virt", False) or ("fnptr" in nd and f is not None and f.virt)
        ev.const = nd.get("const", False); ev.static = nd.get("static", False); ev.ty = bare(nd.get("ty", "")); 
        # smart pointers and identity functions
        if recv is not None:
            ev.recvval = st.store.get(recv, recv)
        bn = ev.name
        if bn in ("std::begin", "std::cbegin", "std::end", "std::cend", "std::size") and len(args) == 1:
            m = re.search(r"\[(\d+)\]", fn.nodes[nd["args"][0]].get("ty", ""))
            if m:
                k = C(int(m.group(1)))
                env[n] = k if bn.endswith("size") else mk("I", args[0], C(0) if "begin" in bn else k)
                return [("ok", st, env)]
        if bn in IDENT_FREE and len(args) == 1:
            env[n] = args[0]
            return [("ok", st, env)]
        cn = base_name(self.P.recs[cls]["name"]) if cls in self.P.recs else base_name(nd.get("clsn") or "")
        if cn in ("std::unique_ptr", "std::shared_ptr", "std::auto_ptr", "std::__shared_ptr", "std::__shared_ptr_access") and short in ("get", "operator->", "operator*"):
            v = self.load(st, recv)
            if v.k == "ctor" and len(v.a) >= 2:
                v = v.a[1]
            env[n] = v
            return [("ok", st, env)]
        if cn in ("std::unique_ptr", "std::shared_ptr", "std::auto_ptr") and short == "release":
            v = self.load(st, recv)
            if v.k == "ctor" and len(v.a) >= 2:
                v = v.a[1]
            st.store[recv] = mk("ctor", cn)
            env[n] = v
            return [("ok", st, env)]
        # dynamic dispatch
        targets = [fid]
        if "recv" in nd and recv is not None and recv.k == "F" and recv not in self.exact:
            rc = self.member_class(fn, nd["recv"])
            if rc is not None:
                self.exact[recv] = rc
        if ev.virt:
            rc = self.exact.get(recv)
            if rc is None and "recv" in nd:
                rc = self.member_class(fn, nd["recv"])
            if rc is not None:
                fo = self.P.final_overrider(rc, fid)
                targets = [fo or fid]
            else:
                t = self.mon.dispatch(self, st, ev)
                targets = t if t is not None else None
        r = self.mon.on_call(self, st, ev)
        if r is not None:
            out = []
            for s2, v2 in r:
                if isinstance(v2, Exc):
                    out.append(("throw", s2, env, v2, n))
                    continue
                e2 = dict(env)
                e2[n] = v2 if v2 is not None else mk("void")
                out.append(("ok", s2, e2))
            return out
        if targets is None:
            return self.opaque_call(fr, st, env, n, nd, ev, self.P.fns.get(fid))
        out = []
        for tid in targets:
            f = self.P.fns.get(tid)
            lamrec = None
            if f is None or not f.blocks or depth >= self.max_depth or not self.rec_ok(fr, f):
                out += self.opaque_call(fr, st.copy(), dict(env), n, nd, ev, f)
                continue
            ev2 = ev
            if not self.mon.inline(self, f, ev2):
                out += self.opaque_call(fr, st.copy(), dict(env), n, nd, ev, f)
                continue
            s0 = st.copy(); e0 = dict(env)
            a2 = self.bind(fr, s0, e0, f, nd["args"], args)
            this = recv
            if recv is not None and not fn.nodes[nd["recv"]].get("lv") and not nd.get("arrow") and recv.k not in ("T", "L", "F", "new", "p", "this", "G", "I", "lam") if "recv" in nd else False:
                T = mk("T", fr.fid, nd["recv"])
                s0.store[T] = recv
                this = T
            if recv is not None and recv.k not in ("lam",):
                v = s0.store.get(recv)
                if v is not None and v.k == "lam":
                    this = v
            if this is not None and this.k == "lam":
                th = s0.store.get(mk("F", this, "$this"))
                this = th if th is not None else this
            for o in self.run_fn(f, s0, this, a2, fr, n, depth + 1):
                if o.kind == "ret":
                    e2 = dict(e0); e2[n] = o.val
                    v = o.val
                    if v.k not in ("c", "f", "s", "void") and v not in self.tyof and "ty" in nd:
                        self.tyof[v] = bare(nd["ty"]) if not nd.get("lv") else self.tyof.get(v, "")
                    out.append(("ok", o.st, e2))
                else:
                    out.append(("throw", o.st, env, o.exc, n))
        return out

    def invoke(self, st, ev, f, this, args):
        """outcomes of calling f from the call site of event ev (for models of library algorithms)"""
        return self.run_fn(f, st, this, list(args), ev.frame, ev.node, (ev.depth or 0) + 1)

    def member_class(self, fn, n):
        """class of an expression that names a member object directly (its dynamic class is its declared class)"""
        nd = fn.nodes[n]
        while nd["k"] == "cast" and nd.get("ck") in ("UncheckedDerivedToBase", "DerivedToBase", "NoOp"):
            nd = fn.nodes[nd["sub"]]
        if nd["k"] != "member" or nd.get("isref"):
            return None
        r = self.P.recs.get(nd.get("fc"))
        for f in (r or {}).get("fields", []):
            if f["name"] == nd["f"] and f.get("rec") in self.P.recs and not f["ty"].rstrip().endswith(("*", "&")):
                return f["rec"]
        return None

    def opaque_call(self, fr, st, env, n, nd, ev, f):
        out = []
        self.opaque[ev.name] = self.opaque.get(ev.name, 0) + 1
        xn = self.mon.may_throw(self, st, ev)
        if xn:
            out.append(("throw", st.copy(), env, Exc(None, xn, None, ev.where), n))
        if nd.get("noret"):
            return out
        # assignment / equality operators on library values
        op = nd.get("op")
        recv, args, vals = ev.recv, ev.args, ev.vals
        isstd = ev.name.startswith("std::") or ev.name.startswith("__gnu_cxx::") or (ev.cls or "").startswith("std::") or (ev.cls or "").startswith("__gnu_cxx::") 
        if op == "=" and recv is not None and len(vals) == 1:
            v = vals[0]
            for k in [k for k in st.store if k is not recv and k.k in ("F", "I") and contains(k, recv)]:
                del st.store[k]
            if args[0].k in ("T", "L", "F", "new", "p") and f is None and not isstd:
                self.copy_obj(st, args[0], recv)
            self.mon.on_store(self, st, recv, v, ev)
            st.store[recv] = v
            env[n] = recv
            out.append(("ok", st, env))
            return out
        if op in ("==", "!=", "<") and isstd:
            ab = ([self.load(st, recv) if fr.fn.nodes[nd["recv"]].get("lv") else recv] if recv is not None else []) + list(vals)
            if len(ab) == 2:
                env[n] = self.compare(st, op, ab[0], ab[1])
                out.append(("ok", st, env))
                return out
        short = ev.short
        mutates = recv is not None and not ev.const and not (isstd and short in NONMUT)
        if isstd and op in ("++", "--", "+=", "-=") and recv is not None:
            mutates = True
        rv = self.load(st, recv) if recv is not None else None
        if isstd and short in ("operator[]", "at") and rv is not None and rv.k == "s" and vals[0].k == "c" and 0 <= vals[0].a[0] <= len(rv.a[0]) \
                and "basic_string" in (ev.cls or ""):
            env[n] = mk("I", rv, vals[0])
            out.append(("ok", st, env)); return out
        if isstd and short in ("empty", "length", "size") and rv is not None and not vals:
            sz = self.size_of(rv)
            env[n] = self.compare(st, "==", sz, C(0)) if short == "empty" else sz
            out.append(("ok", st, env)); return out
        if recv is None and op in ("<<", ">>") and args and (nd.get("lv")):
            # stream insertion: the stream is the first operand
            self.havoc_obj(st, args[0])
            env[n] = args[0]
            out.append(("ok", st, env)); return out
        if op in ("<<", ">>") and recv is not None and nd.get("lv") and isstd:
            self.havoc_obj(st, recv)
            env[n] = recv
            out.append(("ok", st, env)); return out
        pure = not mutates and (ev.const or isstd or ev.static)
        key = ("oc", fr.fid, n)
        parts = []
        if recv is not None:
            parts.append(recv); 
            if rv is not None and rv.k != "ld" or rv.k == "ld" and len(rv.a) > 1:
                parts.append(rv)
        # out-parameters
        outargs = []
        pt = f.params if f is not None else None
        for i, a in enumerate(args):
            an = fr.fn.nodes[nd["args"][i]]
            if pt is not None and i < len(pt):
                t = pt[i]["ty"].rstrip()
                if t.endswith("&") and not t.endswith("&&") and not t.startswith("const ") and " const &" not in t:
                    outargs.append(a)
        if isstd and short in ("getline", "swap"):
            outargs += args
        if pure and not outargs:
            res = mk("call", ev.name, *(parts + list(vals)))
        else:
            c = st.cnt.get(key, 0); st.cnt[key] = min(c + 1, 2)
            res = mk("r", fr.fid, n, c)
            for k in [k for k in st.dom if contains(k, res)]:
                del st.dom[k]
        if mutates:
            c = st.cnt.get(key, 0)
            for k in [k for k in st.store if k is not recv and k.k in ("F", "I") and contains(k, recv)]:
                del st.store[k]
            st.ver[recv] = min(st.ver.get(recv, 0) + 1, 6)
            st.store[recv] = mk("mut", fr.fid, n, st.ver[recv], short, *vals)
        for a in outargs:
            self.havoc_obj(st, a)
        if res not in self.tyof and "ty" in nd:
            self.tyof[res] = bare(nd["ty"])
        if mutates and op in ("++", "--", "+=", "-=") and nd.get("lv"):
            res = recv
        elif mutates and nd.get("lv") and isstd and short in ("append", "assign", "operator+=", "erase", "insert", "replace") and "basic_string" in (ev.cls or ""):
            res = recv
        ev.res = res
        env[n] = res
        out.append(("ok", st, env))
        return out


_BIT = {"&": lambda v, k: v & k, "|": lambda v, k: v | k, ">>": lambda v, k: v >> k, "<<": lambda v, k: v << k,
        "%": lambda v, k: (abs(v) % abs(k)) * (1 if v >= 0 else -1), "^": lambda v, k: v ^ k}
