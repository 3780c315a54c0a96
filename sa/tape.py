"""The text written to a sink, read off the interpreter's output tape as a small grammar.

A tape is a list of pieces: ('s', text), value pieces S('disp', v), S('via', adapter, inner) and
loops ("loop", id, sources, [(pc, pieces)])."""
from engine import S, pp
import q as Q


def pieces(v):
    if v[0] == "S" and v[1] == "cat":
        out = []
        for x in v[2:]:
            out += pieces(x)
        return out
    if v[0] == "s":
        return [v] if v[1] else []
    if v[0] == "S" and v[1] == "disp" and v[2][0] == "S" and v[2][1] in ("disp", "cat"):
        return pieces(v[2])
    return [v]


def is_tape_phi(v, cell):
    return v[0] == "S" and v[1] == "phi" and len(v) == 5 and v[3] == cell


def expand(E, cell, v, stop=()):
    """[(pc or None, [pieces])] alternatives of the text, loops expanded into nodes"""
    ps = pieces(v)
    if ps and is_tape_phi(ps[0], cell):
        ph = ps[0]
        if ph in stop:
            return [(None, ps[1:])]
        ent = E.phis[ph]
        bodies = []
        for pc, bv in ent["back"]:
            for pc2, alt in expand(E, cell, bv, stop + (ph,)):
                bodies.append((both(pc, pc2), alt))
        out = []
        for pc, iv in dedupe(ent["init"]):
            for pc2, pre in expand(E, cell, iv, stop):
                out.append((both(pc, pc2), pre + [("loop", ph[2], ph, tuple((p, tuple(a)) for p, a in bodies))] + ps[1:]))
        return out
    return [(None, ps)]


def both(a, b):
    return a if b is None else b if a is None else a | b if a == b else a


def dedupe(l):
    d = {}
    for pc, v in l:
        d[v] = d[v] | pc if v in d else pc
    return [(p, v) for v, p in d.items()]


def merge_text(ps):
    out = []
    for p in ps:
        if p[0] == "s" and out and out[-1][0] == "s":
            out[-1] = ("s", out[-1][1] + p[1])
        elif p[0] != "s" or p[1]:
            out.append(p)
    return out


def show(ps):
    out = []
    for p in ps:
        if p[0] == "s":
            out.append(p[1].replace("\n", "\\n"))
        elif p[0] == "loop":
            out.append("(loop)*")
        else:
            out.append("{%s}" % pp(p)[:80])
    return "".join(out)


def sources(E, lid):
    """source terms whose exhaustion ends loop lid, from the facts of its exits"""
    srcs = set()
    for l in E.loops.get(lid, []):
        for st in l["backs"]:
            for c in st.pc:
                for a, v in c:
                    if a[0] == "b" and a[1][1] == "more" and v == ("in", frozenset([1])) and Q.contains(a[1][3], lambda t: isinstance(t, tuple) and len(t) == 5 and t[:3] == ("S", "phi", lid)):
                        srcs.add(a[1])
    return srcs
