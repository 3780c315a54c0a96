"""Arithmetic of stack bounds."""
from engine import S, St, pp, OPT, NONE, some
import q as Q
from q import b, var, nf, same

MAX, LOCAL = "Max", "Local"
ARG = lambda n: S("arg", n)


def anchor(ctx, *paths):
    from engine import Incomplete
    for p in paths:
        for x in ctx.j["bodies"]:
            if "#promoted" not in x["key"] and (x["path"] == p or x["path"] == "cargo_call_stack::" + p):
                return x["key"]
    raise Incomplete("none of these functions exists any more: " + ", ".join(paths))


def variants(ctx, path):
    """variant name -> index"""
    a = ctx.j["adts"].get(path)
    if a is None:
        from engine import Incomplete
        raise Incomplete("type not found: " + path)
    return {v["name"]: i for i, v in enumerate(a["variants"])}


def check_fn(ctx, rule, key, args, spec, conv=None, pre=None):
    """compare the summary of a function with a decision-tree specification of its value"""
    E = ctx.engine()
    st = St()
    if pre:
        pre(E, st)
    outs = E.run(key, args, st)
    sp = Q.Spec(E)
    n = 0
    for F, want in sp.leaves(spec):
        n += 1
        hit = False
        for s, v in outs:
            got = E.deep(s, v)
            for c in Q.meets(E, s.pc, F):
                hit = True
                if not same(E, c, got, want):
                    ctx.violate("%s/%s" % (rule, short(F)), "%s: when %s the result is %s, expected %s" % (
                        key.split("::", 1)[1], Q.show(c), pp(got), pp(want)), E.bodies[key]["loc"])
        if not hit:
            # the function may diverge (panic): allowed only if the specification says so
            if want != "diverges":
                ctx.violate("%s/%s" % (rule, short(F)), "%s returns nothing when %s" % (key, Q.show(F)), E.bodies[key]["loc"])
        elif want == "diverges":
            ctx.violate("%s/%s" % (rule, short(F)), "%s returns although %s" % (key, Q.show(F)))
    ctx.ok(rule, "%s: %d scenarios x %d abstract outcomes agree" % (key.split("::", 1)[1], n, len(outs)))
    return E, outs


def short(F):
    return ",".join("%s=%s" % (pp(a[1]).replace(" ", "")[:40], "/".join(map(str, sorted(v[1], key=str)))) for a, v in sorted(F, key=repr))


def arithmetic(ctx):
    mv, lv = variants(ctx, MAX), variants(ctx, LOCAL)
    ctx.need(len(mv) == 2 and len(lv) == 2, "shape", "a bound is exact or a lower bound; a local figure is exact or unknown")
    EX, LB, LE, LU = mv["Exact"], mv["LowerBound"], lv["Exact"], lv["Unknown"]
    Mx = lambda k, n: ("A", MAX, k, (n,))
    x, y = ARG(0), ARG(1)
    num = lambda t, k: S("f", t, k, 0)

    def bound(q, t):
        k = q(var(t))
        return k, num(t, k)

    def local(q, t):
        k = q(var(t))
        return (EX, num(t, LE)) if k == LE else (LB, ("i", 0))

    def s_max(q):
        k, a = bound(q, x)
        l, c = bound(q, y)
        return Mx(EX if k == l == EX else LB, S("max", a, c))

    def s_add_local(q):
        k, a = bound(q, x)
        l, c = local(q, y)
        return Mx(EX if k == l == EX else LB, S("add", a, c))

    def s_add_max(q):
        k, a = bound(q, x)
        l, c = bound(q, y)
        return Mx(EX if k == l == EX else LB, S("add", a, c))

    def s_into(q):
        k, a = local(q, x)
        return Mx(k, a)

    check_fn(ctx, "maximum-of-two", anchor(ctx, "max", "<Max as std::cmp::Ord>::max"), [x, y], s_max)
    check_fn(ctx, "bound-plus-local", anchor(ctx, "<Max as std::ops::Add<Local>>::add"), [x, y], s_add_local)
    check_fn(ctx, "bound-plus-bound", anchor(ctx, "<Max as std::ops::Add>::add", "<Max as std::ops::Add<Max>>::add"), [x, y], s_add_max)
    check_fn(ctx, "local-to-bound", anchor(ctx, "<Local as std::convert::Into<Max>>::into", "<Max as std::convert::From<Local>>::from"), [x], s_into)

    # maximum of a sequence: every element counts, whatever the length and the order
    k = anchor(ctx, "max_of")
    for n in range(0, 3):
        es = [S("arg", i + 10) for i in range(n)]
        E = ctx.engine()
        import models
        it = models.mkit(("V", tuple(es)))
        outs = E.run(k, [it])

        def s_of(q):
            if not es:
                return NONE
            ks = [q(var(e)) for e in es]
            vs = [num(e, z) for e, z in zip(es, ks)]
            return some(Mx(EX if all(z == EX for z in ks) else LB, S("max", *vs) if n > 1 else vs[0]))
        leaves = Q.Spec(E).leaves(s_of)
        for F, want in leaves:
            hit = False
            for s, v in outs:
                got = E.deep(s, v)
                for c in Q.meets(E, s.pc, F):
                    hit = True
                    if not same(E, c, got, want):
                        ctx.violate("maximum-of-sequence/%d" % n, "max_of over %d bounds: when %s the result is %s, expected %s" % (n, Q.show(c), pp(got), pp(want)))
            if not hit:
                ctx.violate("maximum-of-sequence/%d" % n, "max_of over %d bounds returns nothing when %s" % (n, Q.show(F)))
        ctx.ok("maximum-of-sequence", "length %d: %d scenarios" % (n, len(leaves)))
    # any length: the result is the maximum over the whole sequence, shown by induction over the loop
    from props.propagate import Graphs
    from run import Run
    E = ctx.engine()
    src = S("arg", 0)
    outs = E.run(k, [models.mkit(src)])
    R, G = object.__new__(Run), object.__new__(Graphs)
    R.E = G.E = E
    G.R, G.ctx, G.memo, G.EX, G.LB = R, ctx, {}, EX, LB
    NOT = ("in", frozenset([0]))
    empty = more = 0
    for s, v in outs:
        v = E.deep(s, v)
        for c in s.pc:
            if E.decide(c, b(S("more", src, ("i", 0)))) == NOT:
                empty += 1
                ctx.need(same(E, c, v, NONE), "maximum-any-length", "an empty sequence has no maximum", "max_of of nothing is %s" % pp(v)[:100], key="maximum-any-length/empty")
                continue
            more += 1
            why, good = "nothing accumulates", False
            for a, w in c:
                if a[0] == "b" and a[1][1] == "more" and a[1][2] == src and w == NOT and a[1][3][0] == "S" and a[1][3][1] == "phi":
                    for P, opt in G.acc_phis(a[1][3][2]):
                        pos, msg = G.known("is_max", P, opt, src, bound_at(src, EX))
                        if msg is not None or pos != a[1][3]:
                            why = msg or "of another sequence"
                            continue
                        for F, want in Q.Spec(E, c).leaves(lambda q: (lambda m: NONE if m is None else some(G.wrap(m, False)))(G.view(q, P, opt))):
                            if not same(E, F, v, want):
                                why = "it is %s instead of %s when %s" % (pp(v)[:100], pp(want)[:100], Q.show(F))
                                break
                        else:
                            good = True
            ctx.need(good, "maximum-any-length", "accumulated over the whole sequence", "the result of max_of is not the maximum of the sequence: %s (when %s)" % (why, Q.show(c)), key="maximum-any-length")
    ctx.need(more, "maximum-any-length", "sequences examined")


def bound_at(src, ex):
    def f(q, pos):
        t = S("elem", src, pos)
        k = q(var(t))
        return k == ex, S("f", t, k, 0)
    return f
