"""Loads the resolved program of one analysis unit (extracted from /repo's current tree by arx)."""
import hashlib, json, os, subprocess, sys, fcntl, glob

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.path.join(VERIF, "build")
REPO = os.environ.get("ARX_REPO", "/repo")


class Broken(Exception):
    """The analysis cannot reach a verdict (anchors vanished, unit unparsable): neither pass nor violation."""


UNITS = {
    # unit -> (translation unit, configuration include directory)
    "io": ("tu/io.cpp", "cfg"), "io2": ("tu/io2.cpp", "cfg"), "sax": ("tu/sax.cpp", "cfg"),
    "expat": ("tu/expat.cpp", "cfg"), "libxml2": ("tu/libxml2.cpp", "cfg-LIBXML2"),
    "xerces": ("tu/xerces.cpp", "cfg-XERCES"), "dom": ("tu/dom.cpp", "cfg"),
    "xpath": ("tu/xpath.cpp", "cfg"), "xslt": ("tu/xslt.cpp", "cfg"), "taggle": ("tu/taggle.cpp", "cfg"),
}


def _hash_tree():
    h = hashlib.sha1()
    for root in (os.path.join(REPO, "include"), os.path.join(REPO, "src")):
        for d, dn, fn in os.walk(root):
            dn.sort()
            for f in sorted(fn):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(hashlib.sha1(fh.read()).digest())
    for d in ("tu", "cfg", "cfg-LIBXML2", "cfg-XERCES"):
        for dd, dn, fn in os.walk(os.path.join(HERE, d)):
            dn.sort()
            for f in sorted(fn):
                with open(os.path.join(dd, f), "rb") as fh:
                    h.update(f.encode()); h.update(fh.read())
    with open(os.path.join(HERE, "extract.cpp"), "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()[:20]


_treehash = None


def tree_hash():
    global _treehash
    if _treehash is None:
        _treehash = _hash_tree()
    return _treehash


def extractor():
    r = subprocess.run([os.path.join(HERE, "build_arx.sh")])
    if r.returncode:
        raise Broken("extractor does not build")
    src = hashlib.sha1(open(os.path.join(HERE, "extract.cpp"), "rb").read()).hexdigest()[:16]
    return os.path.join(BUILD, "arx-" + src)


def extract(unit):
    os.makedirs(BUILD, exist_ok=True)
    exe = extractor()
    out = os.path.join(BUILD, "dump-%s-%s.jsonl" % (unit, tree_hash()))
    if os.path.exists(out):
        return out
    tu, cfg = UNITS[unit]
    tmp = out + ".%d.tmp" % os.getpid()
    cmd = [exe, tmp, os.path.join(HERE, tu), REPO + "/include", REPO + "/src", os.path.join(HERE, "tu"), "--",
           "-std=gnu++17", "-w", "-ferror-limit=0", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18",
           "-I" + os.path.join(HERE, cfg), "-I" + REPO + "/include", "-I" + REPO + "/src", "-I/usr/include/libxml2",
           "-DARABICA_NOT_USE_PRAGMA_LINKER_OPTIONS"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or not os.path.exists(tmp):
        raise Broken("cannot extract unit %s: %s" % (unit, r.stdout[-2000:]))
    for old in glob.glob(os.path.join(BUILD, "dump-%s-*.jsonl" % unit)):
        try:
            os.unlink(old)
        except OSError:
            pass
    os.rename(tmp, out)
    return out


class Fn:
    __slots__ = ("id", "name", "short", "loc", "params", "ret", "cls", "clsn", "static", "virt", "const", "access",
                 "overrides", "kind", "implicit", "blocks", "entry", "exit", "nodes", "targs", "unit", "body",
                 "_heads", "_lo", "_xb", "_try", "nocfg", "_reach")

    def __init__(self, o, unit):
        self.unit = unit
        self.id = o["id"]; self.name = o["name"]; self.short = o["short"]; self.loc = o["loc"]
        self.params = o["params"]; self.ret = o["ret"]; self.cls = o.get("cls"); self.clsn = o.get("clsn")
        self.static = o.get("static", False); self.virt = o.get("virt", False); self.const = o.get("const", False)
        self.access = o.get("access"); self.overrides = o.get("overrides", []); self.kind = o["kind"]
        self.implicit = o.get("implicit", False); self.targs = o.get("targs")
        self.nocfg = o.get("nocfg", False)
        self.blocks = {b["id"]: b for b in o.get("blocks", [])}
        self.entry = o.get("entry"); self.exit = o.get("exit"); self.body = o.get("body")
        self.nodes = {int(k): v for k, v in o.get("nodes", {}).items()}
        self._heads = self._lo = self._xb = self._try = self._reach = None

    def __repr__(self):
        return "<fn %s>" % self.name

    def line(self, n):
        nd = self.nodes.get(n)
        return "%s:%s" % (self.loc.rsplit(":", 1)[0], nd["l"] if nd else "?")

    # loop heads: targets of retreating edges
    def heads(self):
        if self._heads is None:
            color = {}; heads = set()
            stack = [(self.entry, iter([s for s in self.blocks[self.entry]["s"] if s is not None]))]
            color[self.entry] = 1
            while stack:
                b, it = stack[-1]
                for s in it:
                    if color.get(s) == 1:
                        heads.add(s)
                    elif s not in color:
                        color[s] = 1
                        stack.append((s, iter([x for x in self.blocks[s]["s"] if x is not None])))
                        break
                else:
                    color[b] = 2
                    stack.pop()
            self._heads = heads
        return self._heads

    def loop_of(self, b):
        """the loop head whose condition is decided at block b (b itself if there is none)"""
        m = self._lo
        if m is None:
            m = {}
            for h in self.heads():
                x = h
                for _ in range(40):
                    blk = self.blocks[x]
                    if "c" in blk or not blk["s"] or blk["s"][0] is None:
                        break
                    x = blk["s"][0]
                    if x in self.heads():
                        break
                m.setdefault(x, h)
                m[h] = h
            self._lo = m
        return m.get(b, b)

    def operands(self, n):
        nd = self.nodes[n]
        out = []
        for k in ("sub", "a", "b", "c", "recv", "base", "fnptr", "init", "size"):
            v = nd.get(k)
            if isinstance(v, int) and v >= 0 and not (k == "c" and nd["k"] != "cond"):
                out.append(v)
        for k in ("args", "subs"):
            out += [x for x in nd.get(k, []) if x >= 0]
        for v in nd.get("vars", []):
            if v.get("init", -1) >= 0:
                out.append(v["init"])
        for c in nd.get("caps", []):
            if c.get("init", -1) >= 0:
                out.append(c["init"])
        return out

    # nodes whose value crosses a block boundary
    def crossing(self):
        if self._xb is None:
            where = {}
            for b in self.blocks.values():
                for e in b["e"]:
                    if isinstance(e, int):
                        where.setdefault(e, set()).add(b["id"])
            x = set()
            for b in self.blocks.values():
                for e in b["e"]:
                    n = e if isinstance(e, int) else e.get("init", -1)
                    if n is None or n < 0:
                        continue
                    self._uses(self.operands(n) if isinstance(e, int) else [n], where, b["id"], x)
                if "c" in b:
                    self._uses([b["c"]], where, b["id"], x)
            self._xb = x
        return self._xb

    def _uses(self, ops, where, bid, x):
        """element nodes of other blocks reached through operands that are not elements themselves"""
        todo = list(ops); seen = set()
        while todo:
            o = todo.pop()
            if o < 0 or o in seen:
                continue
            seen.add(o)
            if o in where:
                if where[o] != {bid}:
                    x.add(o)
            # short-circuit and conditional operators are re-evaluated from their operands
            if o not in where or self.nodes[o]["k"] in ("cond",) or self.nodes[o].get("op") in ("&&", "||"):
                todo += self.operands(o)

    # node -> list of enclosing try-node ids, innermost first
    def tries(self):
        if self._try is None:
            self._try = {}
            trys = [n for n, nd in self.nodes.items() if nd.get("sc") == "CXXTryStmt"]
            if trys:
                def walk(n, acc, seen):
                    if n < 0 or n in seen:
                        return
                    seen.add(n)
                    nd = self.nodes[n]
                    self._try[n] = acc
                    if nd.get("sc") == "CXXTryStmt":
                        walk(nd["body"], (n,) + acc, seen)
                        for h in nd["handlers"]:
                            walk(h["id"], acc, seen)
                        return
                    for o in self.operands(n):
                        walk(o, acc, seen)
                    if nd["k"] == "decl":
                        pass
                walk(self.body, (), set())
        return self._try


class Program:
    def __init__(self, units):
        self.fns = {}; self.recs = {}; self.vars = {}; self.enums = {}
        self.units = list(units)
        for u in units:
            with open(extract(u)) as fh:
                for line in fh:
                    o = json.loads(line)
                    t = o.pop("_")
                    if t == "fn":
                        if o["id"] not in self.fns:
                            self.fns[o["id"]] = Fn(o, u)
                    elif t == "rec":
                        self.recs.setdefault(o["id"], o)
                    elif t == "var":
                        if "nodes" in o:
                            o["nodes"] = {int(k): v for k, v in o["nodes"].items()}
                        self.vars.setdefault(o["id"], o)
                    elif t == "enum":
                        self.enums.setdefault(o["id"], o)
        self._by_name = {}
        for f in self.fns.values():
            self._by_name.setdefault(f.name, []).append(f)
        self._rec_name = {}
        for r in self.recs.values():
            self._rec_name.setdefault(r["name"], []).append(r)
        self._derived = None
        self._over = {}

    # ---- lookup ----
    def named(self, name):
        return self._by_name.get(name, [])

    def rec_named(self, name, pred=None):
        rs = [r for r in self._rec_name.get(name, []) if pred is None or pred(r)]
        return rs

    def one_rec(self, name, pred=None):
        rs = self.rec_named(name, pred)
        if not rs:
            raise Broken("class %s not found" % name)
        # prefer std::string instantiation
        if len(rs) > 1:
            pr = [r for r in rs if any(isinstance(t, dict) and "basic_string<char>" in t.get("t", "") for t in r.get("targs", []))]
            rs = pr or rs
        return rs[0]

    def bases(self, rid, seen=None):
        """all (transitive) bases, nearest first, including rid"""
        out = []; todo = [rid]
        while todo:
            r = todo.pop(0)
            if r in out or r not in self.recs:
                continue
            out.append(r)
            todo += self.recs[r]["bases"]
        return out

    def derived(self, rid):
        if self._derived is None:
            self._derived = {}
            for r in self.recs.values():
                for b in self.bases(r["id"])[1:]:
                    self._derived.setdefault(b, []).append(r["id"])
        return self._derived.get(rid, [])

    def methods(self, rid):
        return self.recs[rid].get("methods", [])

    def overrides_star(self, mid):
        """all methods transitively overridden by mid"""
        if not hasattr(self, "_ov"):
            self._ov = {}
            for r in self.recs.values():
                for m in r.get("methods", []):
                    self._ov[m["id"]] = m.get("overrides", [])
        out = set(); todo = list(self._ov.get(mid, []))
        while todo:
            x = todo.pop()
            if x in out:
                continue
            out.add(x); todo += self._ov.get(x, [])
        return out

    def final_overrider(self, rid, mid):
        """the method of dynamic class rid that a virtual call of mid reaches (a method id or None)"""
        key = (rid, mid)
        if key in self._over:
            return self._over[key]
        cand = []
        for b in self.bases(rid):
            for m in self.methods(b):
                if m["id"] not in cand and (m["id"] == mid or mid in self.overrides_star(m["id"])):
                    cand.append(m["id"])
        # nearest class first, but a declaration another candidate overrides is not the final one
        cand = [c for c in cand if not any(c is not d and c in self.overrides_star(d) for d in cand)] or cand
        res = cand[0] if cand else None
        self._over[key] = res
        return res

    def method(self, rid, name, nparams=None, pred=None):
        """methods called `name` visible in class rid (own first, then bases)"""
        for b in self.bases(rid):
            ms = [m for m in self.methods(b) if m["name"] == name and (nparams is None or len(m["params"]) == nparams)
                  and (pred is None or pred(m))]
            if ms:
                return ms
        return []

    def rname(self, rid):
        r = self.recs.get(rid)
        return r["name"].split("::")[-1] if r else "?"

    def enum_val(self, qualified):
        scope, _, nm = qualified.rpartition("::")
        for e in self.enums.values():
            if nm in e["vals"] and (e["name"] == scope or e["name"].rpartition("::")[0] == scope):
                return e["vals"][nm]
        raise Broken("enumerator %s not found" % qualified)
