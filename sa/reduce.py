"""Recognising reductions: a loop-carried value combined with every element of a sequence."""
from engine import S, pp
import q as Q
from q import contains

MAXTY = "Max"
ZERO = ("i", 0)


def num(v):
    """the number inside a bound, whatever its kind"""
    if v[0] == "A" and v[1] == MAXTY:
        return v[3][0]
    return S("f", v, "*", 0)


def strip_kind(v, is_bound):
    """replace `field 0 of variant k` of bound-valued terms by `number of`"""
    if not isinstance(v, tuple):
        return v
    if len(v) == 5 and v[0] == "S" and v[1] == "f" and v[4] == 0 and v[3] in (0, 1) and is_bound(v[2]):
        return S("f", strip_kind(v[2], is_bound), "*", 0)
    return tuple(strip_kind(x, is_bound) for x in v)


def same_num(E, conj, got, want, is_bound):
    g, w = strip_kind(got, is_bound), strip_kind(want, is_bound)
    if g == w:
        return True
    return Q.nf(g, conj, E) == Q.nf(w, conj, E)


def counter(E, lid):
    """positions of the iterations that drive loop lid: [(src, phi, init values)]"""
    r = {}
    for l in E.loops.get(lid, []):
        for st in l["backs"]:
            for c in st.pc:
                for a, v in c:
                    if a[0] == "b" and a[1][1] == "more" and v == ("in", frozenset([1])):
                        p = a[1][3]
                        if p[0] == "S" and p[1] == "phi" and p[2] == lid:
                            r[(a[1][2], p)] = None
    out = []
    for src, p in r:
        ent = E.phis.get(p)
        if ent and all(v == S("add", *sorted((p, ("i", 1)), key=repr)) for _, v in ent["back"]):
            out.append((src, p, {v for _, v in ent["init"]}))
    return out
