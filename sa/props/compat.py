"""When an indirect call may reach a function: compatibility of signatures and of types."""
from engine import S, St, pp, Incomplete
import q as Q
from q import b, var
from props.bounds import anchor, variants
from props.output import whole_iteration, exhausted

OKAY = ("in", frozenset([1]))
NO = ("in", frozenset([0]))


def bool_outs(E, outs):
    r = []
    for s, v in outs:
        for s2, t in E.fork_bool(s, E.deep(s, v)):
            r.append((s2.pc, t))
    return r


def find(ctx, suffix):
    ks = [x["key"] for x in ctx.j["bodies"] if x["path"].endswith(suffix) and "#promoted" not in x["key"]]
    if len(ks) != 1:
        raise Incomplete("function not found: " + suffix)
    return ks[0]


def payload_eq(E, a, bb, k, n):
    return [E.eq(S("f", a, k, i), S("f", bb, k, i)) for i in range(n)]


def compatible(ctx):
    tv = variants(ctx, "ir::ty::Type")
    adt = ctx.j["adts"]["ir::ty::Type"]["variants"]
    P, O = tv["Pointer"], tv["OpaquePointer"]
    a, c = S("arg", 0), S("arg", 1)
    n = len(adt)

    def want(q):
        x, y = q(var(a, n)), q(var(c, n))
        if O in (x, y) and x in (P, O) and y in (P, O):
            return True
        if x != y:
            return False
        for t in payload_eq(E, a, c, x, len(adt[x]["fields"])):
            if t[0] == "S" and not q(b(t)):
                return False
        return True
    def equal(q):
        x, y = q(var(a, n)), q(var(c, n))
        return x == y and all(t[0] != "S" or q(b(t)) for t in payload_eq(E, a, c, x, len(adt[x]["fields"])))

    def consistent(m):
        """what is known about `a == c` as a whole goes with what is known about the parts"""
        for whole in (b(E.eq(a, c)), b(E.eq(c, a))):
            k = E.decide(m, whole)
            if k is None:
                continue
            kinds = [E.decide(m, var(t, n)) for t in (a, c)]
            x, y = [next(iter(k2[1])) if k2 is not None and k2[0] == "in" and len(k2[1]) == 1 else None for k2 in kinds]
            if x is None or y is None:
                continue
            parts = [OKAY if t == ("i", 1) else E.decide(m, b(t)) for t in payload_eq(E, a, c, x, len(adt[x]["fields"]))] if x == y else [NO]
            if k == OKAY and NO in parts or k == NO and all(z == OKAY for z in parts):
                return False
        return True
    # equality is structural
    for x in ctx.j["bodies"]:
        if "#promoted" in x["key"] or x.get("derived", True) or not x["path"].endswith("PartialEq>::eq") or not x["path"].startswith("<ir::ty::Type"):
            continue
        E = ctx.engine()
        gots = bool_outs(E, E.run(x["key"], [a, c]))
        for F, w in Q.Spec(E).leaves(equal):
            for pc, t in gots:
                for m in Q.meets(E, pc, F):
                    ctx.need(t == w or not consistent(m), "equality", "types are equal exactly when all their parts are", "two types (%s) are %sequal, expected the opposite" % (Q.show(m), "" if t else "un"), x["key"])
    kt = find(ctx, "ir::ty::Type::<'a>::loosely_equal")
    E = ctx.engine()
    got = bool_outs(E, E.run(kt, [a, c]))
    cnt = 0
    for F, w in Q.Spec(E).leaves(want):
        hit = False
        for pc, t in got:
            for m in Q.meets(E, pc, F):
                if not consistent(m):
                    continue
                hit = True
                cnt += 1
                if t != w:
                    ctx.violate("types/%s" % names(adt, F), "two types (%s) are %scompatible, expected the opposite" % (Q.show(m), "" if t else "in"), kt)
        if not hit:
            ctx.violate("types/%s" % names(adt, F), "no verdict for two types when %s" % Q.show(F))
    ctx.need(cnt >= n * n, "types", "every pair of kinds of type decided (%d cases)" % cnt)

    # signatures
    ks = find(ctx, "ir::FnSig::<'a>::loosely_equal")
    E = ctx.engine()
    E.key_models[kt] = lambda E, st, cl: S("loose", *[E.deep(st, x) for x in cl.args])
    outs = bool_outs(E, E.run(ks, [a, c]))
    fi, fo = sigfield(ctx, "inputs"), sigfield(ctx, "output")
    ia, ic, oa, oc = S("f", a, 0, fi), S("f", c, 0, fi), S("f", a, 0, fo), S("f", c, 0, fo)
    leneq = b(E.eq(S("len", ia), S("len", ic)))

    def loose(x, y):
        return [b(S("loose", x, y)), b(S("loose", y, x))]

    def known(cj, atoms):
        for t in atoms:
            k = E.decide(cj, t)
            if k is not None:
                return k == OKAY
        return None

    def out_ok(cj):
        ka, kc = E.decide(cj, var(oa)), E.decide(cj, var(oc))
        if ka == OKAY and kc == OKAY:
            return known(cj, loose(S("f", oa, 1, 0), S("f", oc, 1, 0)))
        if ka == NO and kc == NO:
            return True
        if ka is not None and kc is not None:
            return False
        return None
    # the pairwise loop
    pos = None
    for lid in E.loops:
        for src in (ia, ic):
            pos = pos or whole_iteration(E, lid, src)
    if not ctx.need(pos is not None, "signatures", "parameters are compared one by one", "the parameters are not compared pairwise from the first one on", ks):
        return
    ea, ec = S("elem", ia, pos), S("elem", ic, pos)
    for lid in E.loops:
        for x in E.loops[lid]:
            for s in x["backs"]:
                for cj in s.pc:
                    ctx.need(known(cj, loose(ea, ec)) is True, "signatures", "a pair of parameters is passed only when compatible",
                             "a pair of parameters is accepted without being compatible (%s)" % Q.show(cj), ks)
    done = lambda cj: any(E.decide(cj, b(t)) == NO for x in (ia, ic) for t in (S("more", x, pos), S("lt", pos, S("len", x))))
    nt = nf_ = 0
    for pc, t in outs:
        for cj in pc:
            if t:
                nt += 1
                ctx.need(E.decide(cj, leneq) == OKAY, "signatures", "the same number of parameters is required", "signatures with different numbers of parameters are accepted", ks)
                ctx.need(done(cj), "signatures", "every parameter is compared", "signatures are accepted before every parameter was compared", ks)
                ctx.need(out_ok(cj) is True, "signatures", "compatible results are required", "signatures are accepted although their results may differ (%s)" % Q.show(cj), ks)
            else:
                nf_ += 1
                why = E.decide(cj, leneq) == NO or known(cj, loose(ea, ec)) is False or out_ok(cj) is False
                ctx.need(why, "signatures", "rejected only for a difference", "signatures are rejected without a difference (%s)" % Q.show(cj), ks)
    ctx.need(nt and nf_, "signatures", "both verdicts examined (%d, %d)" % (nt, nf_))


def sigfield(ctx, name):
    return ctx.j["adts"]["ir::FnSig"]["variants"][0]["fields"].index(name)


def names(adt, F):
    return "-".join(adt[next(iter(v[1]))]["name"] for x, v in sorted(F, key=repr) if x[0] == "var")
