"""XML character classes, exact over every code unit value."""
from arx.prog import Program
from arx.absint import AbsInt, mk, iv_or, iv_sub, iv_and, iv_size, int_range
from arx.report import Check
from arx import spec_xml10 as X

SPEC = dict(is_char=X.CHAR, is_space=X.SPACE, is_letter=X.LETTER, is_base_char=X.BASE_CHAR, is_digit=X.DIGIT,
            is_combining_char=X.COMBINING, is_extender=X.EXTENDER, is_letter_or_digit=X.LETTER_OR_DIGIT,
            is_name_char=X.NAME_CHAR, is_ncname_char=X.NCNAME_CHAR, is_ideographic=X.IDEOGRAPHIC)


def accepted(P, f):
    A = AbsInt(P)
    p0 = mk("p", 0)
    yes = (); no = ()
    for o in A.run(f):
        if o.kind != "ret":
            continue
        for want in (True, False):
            s = o.st.copy()
            if A.assume(s, o.val, want):
                d = A.dom(s, p0)
                if want: yes = iv_or(yes, d)
                else: no = iv_or(no, d)
    return yes, no, A


def hexs(s):
    return ", ".join("#x%X-#x%X" % (a, b) for a, b in s[:6])


def check():
    c = Check("C01", "proof", "interval-set abstract interpretation of each classifier; accepted set compared with the XML 1.0 production")
    P = Program(["io"])
    n = 0; outs = 0
    for name, spec in SPEC.items():
        for f in P.named("Arabica::XML::" + name):
            n += 1
            yes, no, A = accepted(P, f)
            dom = int_range(f.params[0]["ty"])
            want = iv_and(spec, dom)
            c.ob("%s/%s accepts nothing outside the production" % (name, f.params[0]["ty"]), not iv_sub(yes, want), f.loc,
                 "accepts " + hexs(iv_sub(yes, want)))
            c.ob("%s/%s accepts the whole production" % (name, f.params[0]["ty"]), not iv_sub(want, yes), f.loc,
                 "rejects " + hexs(iv_sub(want, yes)))
            # the analysis is exact only if no code point is in both sets and none is in neither
            amb = iv_and(yes, no); none = iv_sub(dom, iv_or(yes, no))
            c.ob("%s/%s answers every value exactly once" % (name, f.params[0]["ty"]), not amb and not none, f.loc,
                 "undetermined: " + hexs(amb) + " / unanswered " + hexs(none))
            outs += len(no) + len(yes)
    c.floor("classifier functions", n, 11)
    c.stat("intervals compared", outs)
    return c.finish()
