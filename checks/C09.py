"""Character data: bounds, exact splices, splitText."""
from arx.prog import Program, Broken
from arx.absint import C, NULL, mk, contains, ALL
from arx.report import Check
from arx.dom import World, WorldMon, Failed, guarded, CODES, CODE_NAME, dom_code
from arx.strs import StrModel, cat, sub, strval, plus, upto, END, EMPTY, uncast

BIG = 2 ** 31 - 1
INDEX = CODES["INDEX_SIZE_ERR"]
LENGTHS = (0, 1, 5, 1000)


class Mon(StrModel, WorldMon):
    def on_call(self, A, st, ev):
        r = self.str_call(A, st, ev)
        return r if r is not None else WorldMon.on_call(self, A, st, ev)


def iv_union(ivs):
    out = []
    for a, b in sorted(ivs):
        if out and a <= out[-1][1] + 1:
            out[-1][1] = max(out[-1][1], b)
        else:
            out.append([a, b])
    return [tuple(x) for x in out]


@guarded
def check():
    c = Check("C09", "proof", "for every character data node class and operation: the offsets and counts on which each path returns or throws, as "
              "interval sets for symbolic arguments; the new contents of each returning path as a normalised splice of the old")
    P = Program(["dom"])
    paths = 0

    def rect(A, o, args):
        return [A.dom(o.st, a) for a in args]

    for cls in ("TextImpl", "CommentImpl", "CDATASectionImpl"):
        W = World(P, Mon())
        doc, st = W.build(W.start(), "DocumentImpl", "doc", nparams=0)
        t, st = W.build(st, cls, "t", doc)
        def value(st, obj, observer):
            v = W.get(st, obj, observer)
            return strval(W.engine().load(st, v) if v.k in ("F", "L", "T", "I") else v)
        D = value(st, t, "getData")
        c.ob("%s: the node value is the data" % cls, value(st, t, "getNodeValue") is D, "", "")
        L = W.get(st, t, "getLength")
        c.ob("%s: length is the length of the data" % cls, uncast(L) is mk("size", D), "", str(L))
        if uncast(L).k != "size":
            continue
        O, N, S = mk("p", 0), mk("p", 1), mk("p", 2)

        def data_of(st):
            return value(st, t, "getData")

        def run(op, n, length=None):
            nonlocal paths
            f = W.fn(t, op, n); A = W.engine(); s = st.copy(); s.mon = W.mon.init()
            if length is not None:
                A.meet(s, uncast(L), ((length, length),)); A.meet(s, L, ((length, length),))
            args = A.sym_args(f)
            outs = A.run(f, this=t, args=args, st=s)
            if not outs:
                raise Broken("no path through %s::%s" % (cls, op))
            W.runs += 1; paths += len(outs)
            return f, A, args, outs

        # replacing the whole value
        for op in ("setData", "setNodeValue", "appendData"):
            f, A, args, outs = run(op, 1)
            for o in outs:
                want = cat(D, args[0]) if op == "appendData" else strval(args[0])
                got = data_of(o.st) if o.kind == "ret" else None
                ok = got is want or got is not None and got.k == "ld" and got.a[0] is args[0] or \
                    op == "appendData" and got is cat(D, mk("ld", args[0]))
                c.ob("%s.%s: contents afterwards" % (cls, op), ok, f.loc, str(got))
        for op, n in (("substringData", 2), ("insertData", 2), ("deleteData", 2), ("replaceData", 3)) + ((("splitText", 1),) if cls != "CommentImpl" else ()):
            counted = op in ("substringData", "deleteData", "replaceData")
            for length in LENGTHS:
                f, A, args, outs = run(op, n, length)
                o_, n_ = args[0], args[1] if counted else None
                good, bad = [], []
                for o in outs:
                    do = A.dom(o.st, o_); dn = A.dom(o.st, n_) if counted else ((0, 0),)
                    key = "%s.%s on %d characters" % (cls, op, length)
                    if o.kind == "ret":
                        c.ob(key + ": accepts only offsets and counts in range", do[0][0] >= 0 and do[-1][1] <= length and dn[0][0] >= 0, f.loc,
                             "offset %s count %s" % (do, dn))
                        for a, b in do:
                            for x, y in dn:
                                good.append((a, b, x, y))
                    else:
                        code = dom_code(o.exc)
                        c.ob(key + ": a refusal is INDEX_SIZE_ERR", code == INDEX, f.loc, CODE_NAME.get(code, str(o.exc)))
                        inside = [(max(a, 0), min(b, length)) for a, b in do if max(a, 0) <= min(b, length)]
                        cnt = [(max(a, 0), b) for a, b in dn if b >= 0]
                        # splitText may also refuse for reasons of tree structure, checked elsewhere
                        if not (op == "splitText" and code != INDEX):
                            c.ob(key + ": refuses only offsets and counts out of range", not inside or counted and not cnt, f.loc,
                                 "offset %s count %s" % (do, dn))
                        c.ob(key + ": a refusal changes nothing", data_of(o.st) is D, f.loc, "")
                cover = iv_union([(a, b) for a, b, x, y in good if not counted or x == 0 and y >= BIG])
                c.ob("%s.%s on %d characters: every offset and count in range is accepted" % (cls, op, length), cover == [(0, length)], f.loc,
                     str(good))
            f, A, args, outs = run(op, n)
            o_ = args[0]; n_ = args[1] if counted else None
            arg = args[2] if op == "replaceData" else args[1] if op == "insertData" else None
            for o in outs:
                if o.kind != "ret":
                    continue
                got = data_of(o.st)
                tails = [sub(D, upto(D, o_, n_), END)] if counted else []
                args2 = [arg, mk("ld", arg)] if arg is not None else []
                if op == "substringData":
                    c.ob("%s.%s: result" % (cls, op), strval(o.val) is sub(D, o_, upto(D, o_, n_)), f.loc, str(o.val))
                    c.ob("%s.%s: changes nothing" % (cls, op), got is D, f.loc, str(got))
                elif op == "deleteData":
                    c.ob("%s.%s: contents afterwards" % (cls, op), got is cat(sub(D, C(0), o_), tails[0]), f.loc, str(got))
                elif op == "insertData":
                    c.ob("%s.%s: contents afterwards" % (cls, op), any(got is cat(sub(D, C(0), o_), x, sub(D, o_, END)) for x in args2), f.loc, str(got))
                elif op == "replaceData":
                    c.ob("%s.%s: contents afterwards" % (cls, op), any(got is cat(sub(D, C(0), o_), x, tails[0]) for x in args2), f.loc, str(got))
                elif op == "splitText":
                    c.ob("%s.splitText: the first part stays" % cls, got is sub(D, C(0), o_), f.loc, str(got))
                    nd = o.val
                    if nd.k == "c":
                        c.ob("%s.splitText: a new node is returned" % cls, False, f.loc, "null"); continue
                    W.exact.setdefault(nd, A.exact.get(nd))
                    v = value(o.st, nd, "getData")
                    c.ob("%s.splitText: the new node holds the rest" % cls, v is sub(D, o_, END), f.loc, str(v))
                    k = P.rname(A.exact[nd]).split("<")[0] if nd in A.exact else "?"
                    c.ob("%s.splitText: the new node is of the same kind" % cls, k == cls, f.loc, k)
    c.floor("paths", paths, 100)
    c.stat("paths", paths)
    return c.finish()
