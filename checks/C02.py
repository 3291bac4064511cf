"""Escaping of text and attribute characters."""
from arx.prog import Program
from arx.absint import AbsInt, mk, iv_and, iv_not, iv_or, iv_sub, int_range, show
from arx.rules import StreamOut
from arx.report import Check

TEXT = {60: "&lt;", 62: "&gt;", 38: "&amp;"}
ATTR = dict(TEXT); ATTR.update({34: "&quot;", 9: "&#x9;", 10: "&#xA;", 13: "&#xD;"})


def check():
    c = Check("C02", "proof", "abstract interpretation of each escaper: for every code unit, the code units inserted in the stream")
    P = Program(["io"])
    nf = 0; paths = 0
    for cls, table in (("text_escaper", TEXT), ("attribute_escaper", ATTR)):
        for r in P.recs.values():
            if r["name"] != "Arabica::XML::" + cls or not r["repo"]:
                continue
            for m in P.methods(r["id"]):
                if m["name"] != "operator()":
                    continue
                f = P.fns.get(m["id"])
                if f is None or not f.blocks:
                    continue
                nf += 1
                A = AbsInt(P, StreamOut())
                p0 = mk("p", 0)
                A.exact[mk("this")] = r["id"]
                cover = ()
                ty = f.params[0]["ty"]
                for o in A.run(f):
                    d = A.dom(o.st, p0)
                    paths += 1
                    out = o.st.mon
                    cover = iv_or(cover, d)
                    # a path is plain when it writes exactly the character itself
                    for code, ent in table.items():
                        if iv_and(d, ((code, code),)):
                            txt = tuple(ord(x) for x in ent)
                            got = tuple(code if x == ("v", p0) else x for x in out)
                            c.ob("%s<%s> writes %s for #x%X" % (cls, ty, ent, code), o.kind == "ret" and got == txt, f.loc,
                                 "writes %s" % (out,))
                    rest = d
                    for code in table:
                        rest = iv_sub(rest, ((code, code),))
                    if rest:
                        got = out
                        lit = len(rest) == 1 and rest[0][0] == rest[0][1] and out == (rest[0][0],)
                        c.ob("%s<%s> copies every other character unchanged" % (cls, ty),
                             o.kind == "ret" and (out == (("v", p0),) or lit), f.loc,
                             "for %s writes %s" % (rest[:3], out))
                c.ob("%s<%s> handles every character" % (cls, ty), not iv_sub(int_range(ty) and (int_range(ty)) or (), cover), f.loc, "")
    c.floor("escaper instantiations", nf, 4)
    c.floor("paths", paths, 20)
    return c.finish()
