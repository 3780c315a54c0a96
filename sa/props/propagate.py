"""Propagation of stack bounds over the call graph (C02, C03)."""
from engine import S, pp, Incomplete, OPT, NONE, some
import q as Q
from q import b, var
from run import Run, Roles, is_s, is_m, one, vidx, fidx, intact
from props.edges import YES, NO

MAX = "Max"


def adts_of(t, ctx):
    return ctx.j["adts"].get(t)


class Graphs:
    """the graph the bounds are computed on, the loops that compute them, and the reductions over callees"""

    def __init__(self, ctx, R, W):
        self.ctx, self.R, self.W, self.E = ctx, R, W, R.E
        self.mi, self.li = fidx(ctx, "Node", "max"), fidx(ctx, "Node", "local")
        self.EX, self.LB = vidx(ctx, MAX, "Exact"), vidx(ctx, MAX, "LowerBound")
        self.LE = W.local_v["Exact"]
        self.nl = len(W.local_v)
        self.stores = [e for e in R.find("store") if self.max_place(e.data[0])]
        self.memo = {}

    # ---------------------------------------------------------------- terms
    def max_place(self, t):
        return is_s(t, "f", 3) and is_s(t[2], "at", 2) and t[3:] == (0, self.mi) and self.graph(t[2][2])

    def graph(self, g):
        """the term is the call graph (filtered or not)"""
        if is_m(g):
            return g[1] == "Graph"
        if is_s(g, "phi") and g[3] == "phase" or is_s(g, "phi"):
            ent = self.E.phis.get(g)
            return bool(ent) and bool(ent["init"]) and all(is_m(v) and v[1] == "Graph" or is_s(v, "phi") and self.graph(v) for _, v in ent["init"])
        return False

    def values(self, t):
        """[(conjunction, value)] of a term that may differ between the ways to a phase"""
        ent = self.E.phis.get(t) if is_s(t, "phi") else None
        if ent is None or ent["back"]:
            return None
        return [(c, v) for pc, v in ent["init"] for c in pc]

    def local(self, g, n):
        return S("f", S("at", g, n), 0, self.li)

    def mx(self, k, n):
        return ("A", MAX, k, (n,))

    def loc(self, q, L):
        """(exact?, number) of a local figure"""
        if q(var(L, self.nl)) == self.LE:
            return True, S("f", L, self.LE, 0)
        return False, ("i", 0)

    def bound(self, q, t):
        k = q(var(t))
        return k == self.EX, S("f", t, k, 0)

    def recorded(self, g, n):
        """the recorded bound of a node: the option and its payload"""
        o = S("f", S("at", g, n), 0, self.mi)
        return o, S("f", o, 1, 0)

    # ---------------------------------------------------------------- reductions
    def positions(self, lid, src):
        """positions that drive the loop over src, advancing one by one: [(phi, first)]"""
        out = []
        for p in self.R.counters(lid).get(src, ()):
            ent = self.E.phis.get(p)
            step = S("add", *sorted((p, ("i", 1)), key=repr))
            ini = {v for _, v in ent["init"]} if ent else set()
            if ent and ent["back"] and all(v == step for _, v in ent["back"]) and len(ini) == 1:
                out.append((p, next(iter(ini))))
        return out

    def acc_phis(self, lid):
        """loop-carried bounds of the loop"""
        out = []
        for p, ent in self.E.phis.items():
            if p[2] == lid and ent["back"] and ent["init"]:
                vs = [v for _, v in ent["init"] + ent["back"]]
                if any(v[0] == "A" and v[1] == MAX for v in vs):
                    out.append((p, False))
                elif any(v[0] == "A" and v[1] == OPT and v[2] == 1 and v[3][0][0] == "A" and v[3][0][1] == MAX for v in vs):
                    out.append((p, True))
                elif all(is_s(v, "phi") and v[2] != lid and v in self.E.phis for _, v in ent["back"]):
                    for o in {o for _, v in ent["back"] for x, o in self.acc_phis(v[2]) if x == v}:
                        out.append((p, o))
        return out

    def view(self, q, P, opt):
        """None | (exact?, number) of an accumulator"""
        if opt:
            if q(var(P)) == 0:
                return None
            return self.bound(q, S("f", P, 1, 0))
        return self.bound(q, P)

    def wrap(self, w, opt):
        if w is None:
            return NONE
        r = self.mx(self.EX if w[0] else self.LB, w[1])
        return some(r) if opt else r

    def join(self, x, y):
        if x is None:
            return y
        if y is None:
            return x
        return x[0] and y[0], S("max", x[1], y[1])

    def is_max(self, P, opt, src, contrib, skip=lambda q, pos: False, extra=lambda pos: frozenset(), starts=None):
        """the accumulator is the maximum of contrib(q, position) over the visited prefix of src
        -> (position, message): message None if it is"""
        E = self.E
        lid = P[2]
        ps = self.positions(lid, src)
        if len(ps) != 1:
            return None, "its loop does not visit the elements one by one"
        pos, first = ps[0]
        if first not in (("i", 0), ("i", 1)):
            return None, "its loop starts at position %s" % pp(first)
        ent = E.phis[P]

        def step(q):
            old = self.view(q, P, opt)
            if skip(q, pos):
                return self.wrap(old, opt)
            return self.wrap(self.join(old, contrib(q, pos)), opt)
        seen = 0
        for F, want in Q.Spec(E, extra(pos)).leaves(step):
            for pc, v in ent["back"]:
                for c in Q.meets(E, pc, F):
                    seen += 1
                    if not Q.same(E, c, v, want):
                        return None, "it becomes %s instead of %s when %s" % (pp(v)[:160], pp(want)[:160], Q.show(c))
        if not seen:
            return None, "it is never combined with an element"
        Z = ("i", 0)
        for pc, v in ent["init"]:
            if first == Z:
                if v not in (starts or (NONE, self.mx(self.EX, Z))):
                    return None, "it starts from %s" % pp(v)[:100]
            else:
                for F, want in Q.Spec(E, extra(Z)).leaves(lambda q: self.wrap(None if skip(q, Z) else contrib(q, Z), opt)):
                    for c in Q.meets(E, pc, F):
                        if not Q.same(E, c, v, want):
                            return None, "it starts from %s instead of %s when %s" % (pp(v)[:160], pp(want)[:160], Q.show(c))
        return pos, None

    def known(self, f, *a):
        k = (f,) + a
        if k not in self.memo:
            self.memo[k] = getattr(self, f)(*a)
        return self.memo[k]

    def callees(self, g, n, P, opt):
        """P is the maximum of the recorded bounds of the direct callees of n -> (source, position, message)"""
        src = S("nbrs", g, n, "out")

        def contrib(q, pos):
            return self.bound(q, self.recorded(g, S("elem", src, pos))[1])
        some_ = lambda pos: frozenset([(var(self.recorded(g, S("elem", src, pos))[0]), YES)])
        return (src,) + self.is_max(P, opt, src, contrib, extra=some_)

    def locals(self, g, scc, P, opt):
        """P is the maximum of the local figures of the members of the component"""
        def contrib(q, pos, s=scc):
            return self.loc(q, self.local(g, S("elem", s, pos)))
        cs = self.R.counters(P[2])
        if S("rev", scc) in cs:
            s = S("rev", scc)
            return (s,) + self.is_max(P, opt, s, lambda q, pos: contrib(q, pos, s))
        s = next((x for x in cs if is_s(x, "sub") and x[2:4] == (scc, ("i", 1)) and x in self.tails(scc)), None)
        if s is not None:
            for pc, v in self.E.phis[P]["init"]:
                for F, want in Q.Spec(self.E).leaves(lambda q: self.wrap(contrib(q, ("i", 0)), opt)):
                    for c in Q.meets(self.E, pc, F):
                        if not Q.same(self.E, c, v, want):
                            return s, None, "it starts from %s" % pp(v)[:160]
            return (s,) + self.is_max(P, opt, s, lambda q, pos: contrib(q, pos, s), starts=[v for _, v in self.E.phis[P]["init"]])
        return (scc,) + self.is_max(P, opt, scc, contrib)

    def tails(self, scc):
        """forms of the component without its first member"""
        return [x for lid in self.E.loops for x in self.R.counters(lid) if is_s(x, "sub") and x[2:4] == (scc, ("i", 1)) and x[4] is None]

    def outside(self, g, scc, P, opt):
        """P is the maximum of the recorded bounds of the callees of members that are not members themselves"""
        E, R = self.E, self.R
        for src in R.counters(P[2]):
            if is_s(src, "staged") and src[2] == scc:
                return (src,) + self.outside_staged(g, scc, src, P, opt)
            if is_m(src):
                return (src,) + self.outside_collected(g, scc, src, P, opt)
            if src == scc:
                return (src,) + self.outside_nested(g, scc, P, opt)
        return None, None, "its loop does not visit the callees of the members"

    def members(self, conjs, scc, nb):
        """facts that say that nb is no member of the component"""
        out = set()
        for c in conjs:
            for a, x in c:
                if a[0] != "b":
                    continue
                if a[1][1] == "has" and a[1][3] == nb and (a[1][2] == scc or self.known("set_of", a[1][2], scc)):
                    out.add((a, NO))
                if a[1][1] == "more" and a[1][2] == scc and x == NO and self.known("compared", a[1][3], scc, nb):
                    out.add((a, NO))
        return out

    def compared(self, p, scc, nb):
        """the loop with position p compares nb with each member in turn"""
        if not is_s(p, "phi") or self.R.whole(p[2], scc) != p:
            return False
        f = (b(self.E.eq(nb, S("elem", scc, p))), NO)
        return all(f in d for pc in self.R.backs(p[2]) for d in pc)

    def set_of(self, m, scc):
        """the set m contains exactly the members of the component"""
        R = self.R
        if not is_m(m):
            return False
        evs = [e for e in R.evs if e.data and e.data[0] == m and e.kind != "visit"]
        lids = {e.loops[-1] for e in evs if e.loops}
        if len(lids) != 1 or any(e.kind != "sins" for e in evs):
            return False
        lid = next(iter(lids))
        p = R.whole(lid, scc)
        if p is None or any(e.data[1] != S("elem", scc, p) or e.loops != self.E.alloc_loops.get(m, ()) + (lid,) for e in evs):
            return False
        return all(R.ended(c, scc, p) for pc in R.exits(lid) for c in pc) and all(Q.cover(self.E, pc, [e.pc for e in evs]) is None for pc in R.backs(lid))

    def outside_staged(self, g, scc, src, P, opt):
        """over a chain of iterator adapters"""
        E = self.E
        ps = self.positions(P[2], src)
        if len(ps) != 1:
            return None, "its loop does not visit the elements one by one"
        pos = ps[0][0]
        acc = S("acc", src[3], pos)
        nbs = set()
        want = S("nbrs", g, S("elem", scc, acc), "out")
        for pc, v in E.phis[P]["back"]:
            for t in Q.subterms(v):
                if is_s(t, "elem", 2) and t[2] == want and is_s(t[3], "fpos") and t[3][3] == acc:
                    nbs.add(t)
        if len(nbs) != 1:
            return None, "it does not depend on the callees of the members"
        nb0 = next(iter(nbs))
        # every callee outside is taken
        F = frozenset([(b(S("more", src, pos)), YES), (b(S("more", scc, acc)), YES), (b(S("more", want, nb0[3])), YES), (var(self.recorded(g, nb0)[0]), YES)])
        F = F | self.members([c for pc, v in E.phis[P]["back"] for c in pc], scc, nb0)
        for pc in self.R.entries(P[2]):
            r = Q.cover(E, pc, [x for x, v in E.phis[P]["back"]], F)
            if r is not None:
                return None, "a callee outside the component is left out when %s" % Q.show(r)
        return self.over(g, scc, src, P, opt, pos, nb0)

    def over(self, g, scc, src, P, opt, pos, nb0):
        """the maximum over the elements of src, each of which is a callee that is no member"""
        nb = lambda p: Q.subst(nb0, {pos: p}) if p != pos else nb0

        def contrib(q, p):
            return self.bound(q, self.recorded(g, nb(p))[1])
        some_ = lambda p: frozenset([(var(self.recorded(g, nb(p))[0]), YES)])
        for pc, v in self.E.phis[P]["back"]:
            for c in pc:
                if not self.members([c], scc, nb0) & c:
                    return None, "members of the component themselves are taken into account when %s" % Q.show(c)
        return self.is_max(P, opt, src, contrib, extra=some_)

    def outside_collected(self, g, scc, V, P, opt):
        """over a vector filled by nested loops over the members and their callees"""
        E, R = self.E, self.R
        ps = self.positions(P[2], V)
        if len(ps) != 1:
            return None, "its loop does not visit the elements one by one"
        pos = ps[0][0]
        push = R.find("push", lambda v, x: v == V)
        if any(e.data and e.data[0] == V and e.kind not in ("push", "visit") for e in R.evs):
            return None, "the collected values are modified"
        home = E.alloc_loops.get(V, ())
        lo = li = po = pi = None
        for e in push:
            if len(e.loops) != len(home) + 2 or e.loops[:len(home)] != home or (lo, li) not in ((None, None), e.loops[-2:]):
                return None, "values are collected elsewhere"
            lo, li = e.loops[-2:]
            po = R.whole(lo, scc)
            want = po and S("nbrs", g, S("elem", scc, po), "out")
            pi = po and R.whole(li, want)
            if not pi:
                return None, "not all callees of all members are collected"
            nb = S("elem", want, pi)
            if e.data[1] != self.recorded(g, nb)[1]:
                return None, "something else is collected: %s" % pp(e.data[1])[:100]
        if li is None:
            return None, "nothing is collected"
        has = self.members([c for e in push for c in e.pc] + [c for pc in R.backs(li) for c in pc], scc, nb)
        F = frozenset(has)
        for pc in R.backs(li):
            r = Q.cover(E, pc, [e.pc for e in push], F)
            if r is not None:
                return None, "a callee outside the component is left out when %s" % Q.show(r)
        for pcs, s, p in ((R.exits(li), want, pi), (R.backs(lo), want, pi), (R.exits(lo), scc, po)):
            for pc in pcs:
                for c in pc:
                    if not R.ended(c, s, p):
                        return None, "not all callees of all members are collected when %s" % Q.show(c)
        m = {po: S("ix", lo, V, pos), pi: S("ix", li, V, pos)}
        return self.over(g, scc, V, P, opt, pos, Q.subst(nb, m))

    def outside_nested(self, g, scc, P, opt):
        """for each member: for each callee"""
        E, R = self.E, self.R
        ps = self.positions(P[2], scc)
        if len(ps) != 1 or ps[0][1] != ("i", 0):
            return None, "its loop does not visit all members one by one"
        pos = ps[0][0]
        ent = E.phis[P]
        if any(v not in (NONE, self.mx(self.EX, ("i", 0))) for _, v in ent["init"]):
            return None, "it does not start from nothing"
        src = S("nbrs", g, S("elem", scc, pos), "out")
        for pc, v in ent["back"]:
            if not is_s(v, "phi"):
                return None, "it becomes %s" % pp(v)[:100]
            o2 = dict((a, b_) for a, b_ in self.acc_phis(v[2])).get(v)
            if o2 is None:
                o2 = opt

            def contrib(q, p):
                return self.bound(q, self.recorded(g, S("elem", src, p))[1])

            def skip(q, p):
                nb = S("elem", src, p)
                has = self.members([c for x, _ in E.phis[v]["back"] for c in x], scc, nb)
                return any([q(a) for a, _ in sorted(has, key=repr)])
            p, msg = self.is_max(v, o2, src, contrib, skip, starts=(P,))
            if msg:
                return None, msg
            for c in pc:
                if not R.ended(c, src, p):
                    return None, "not all callees of a member are looked at when %s" % Q.show(c)
        return pos, None


def has_self(E, c, g, n):
    """the facts say that n calls itself: True / None"""
    for a, v in c:
        if a[0] == "b" and v == YES and a[1][1] == "eq" and n in a[1][2:4]:
            o = a[1][3] if a[1][2] == n else a[1][2]
            if is_s(o, "elem") and o[2] == S("nbrs", g, n, "out") and E.decide(c, b(S("more", o[2], o[3]))) == YES:
                return True
        if a[0] == "b" and v == YES and a[1][1] == "hasedge" and a[1][2:5] == (g, n, n):
            return True
    return None


def no_self(G, c, g, n):
    """the facts say that n does not call itself"""
    E, R = G.E, G.R
    src = S("nbrs", g, n, "out")
    for a, v in c:
        if a[0] == "b" and v == NO and a[1][1] == "hasedge" and a[1][2:5] == (g, n, n):
            return True
        if a[0] == "b" and v == NO and a[1][1] == "more" and a[1][2] == src:
            p = a[1][3]
            if p == ("i", 0):
                return True
            if is_s(p, "phi"):
                w = R.whole(p[2], src)
                if w == p and all(any(f == b(S("eq", *sorted((n, S("elem", src, p)), key=repr))) and x == NO for f, x in d) for pc in R.backs(p[2]) for d in pc):
                    return True
    return False


def propagation(ctx, R, W):
    """-> Graphs with the acyclic loop and the component loop"""
    G = Graphs(ctx, R, W)
    E = R.E
    if not G.stores:
        raise Incomplete("no cumulative bound is ever recorded")
    G.topo, G.scc = [], []
    for lid in R.toploops():
        for src, ps in R.counters(lid).items():
            vs = G.values(src) or [(c, src) for c in [frozenset()]]
            if all(is_s(v, "topo") for _, v in vs):
                G.topo.append((lid, src))
            elif all(is_s(v, "scc") for _, v in vs):
                G.scc.append((lid, src))
    return G


def flags(R, W):
    """booleans carried by the loop over the symbols that start false and may become true"""
    out = []
    for p, ent in R.E.phis.items():
        if p[2] == W.symloop and ent["back"] and {v for _, v in ent["init"]} == {("i", 0)} and all(v in (("i", 0), ("i", 1), p) for _, v in ent["back"]):
            if any(v == ("i", 1) for _, v in ent["back"]):
                out.append(p)
    return out


def same_graph(ctx, G, lid, src, rule, of):
    """the sequence walked is that of the graph whose nodes are updated -> graph term"""
    gs = {e.data[0][2][2] for e in G.stores if lid in e.loops}
    if len(gs) != 1:
        ctx.need(not gs, rule, "one graph", "bounds of several graphs are recorded in one walk")
        return None
    g = next(iter(gs))
    sv = G.values(src) or [(frozenset(), src)]
    gv = G.values(g) or [(c, g) for c, _ in sv]
    bad = [c for c, v in sv if (c, of(v)) not in gv]
    ctx.need(not bad, rule, "walks the graph itself (%d ways)" % len(sv), "the order is that of another graph than the one whose bounds are computed" + (", when " + Q.show(bad[0]) if bad else ""))
    return g


def when(ctx, R, W, G, rule):
    """computed whenever any figure is available, and only then -> the flag"""
    E = R.E
    loops = [l for l, _ in G.topo + G.scc]
    if not ctx.need(G.topo or G.scc, rule, "walk found", "the nodes are not visited in the order of their dependencies"):
        return None
    fl = flags(R, W)
    good = []
    for p in fl:
        if all(E.decide(c, b(p)) == YES for l in loops for pc in R.before(l) for c in pc):
            good.append(p)
    if not ctx.need(good, rule, "only with figures", "bounds are computed although no stack usage information may be available"):
        return None
    fl = good[0]
    # the flag is set exactly when a figure was found
    nodes = [(W.node_fields(e.data[1]), e) for e in R.find("add_node") if W.symloop in e.loops and e.data[0] == W.G]
    from props.nodes import sizes_map
    SZ = sizes_map(W, nodes)

    def found(c):
        return any(a[0] == "var" and is_s(a[1], "get") and a[1][2] == SZ and v == YES for a, v in c)
    n = 0
    for pc, v in E.phis[fl]["back"]:
        for c in pc:
            n += 1
            f = found(c) or E.decide(c, b(fl)) == YES
            ctx.need((v == ("i", 1)) == f or v == fl and E.decide(c, b(fl)) == YES, rule, "flag says whether there is a figure",
                     "a figure of stack usage is %s when %s" % ("found but not taken note of" if f else "assumed although there is none", Q.show(c)), key=rule + "/flag")
    ctx.need(n, rule, "flag examined")
    # every other successful way to the output goes through one of the walks
    tops = R.toploops()
    lo, hi = min(tops.index(l) for l in loops), max(tops.index(l) for l in loops)
    ways = [("phase at %s" % R.E.phases[j][2], c) for j in range(hi + 1, len(tops)) for pc in R.E.phases[j][3] for c in pc]
    ways += [("the end of the run", c) for pc, v in R.ok_outs() if not (v == S("Ok0") or not (v[0] == "A" and v[3] and v[3][0] == ("i", 0))) for c in pc]
    n = 0
    for what, c in ways:
        r = R.relphase(c)
        if 0 <= r < lo:
            n += 1
            ctx.need(E.decide(c, b(fl)) == NO, rule, "skipped only without figures", "%s is reached without computing bounds when %s" % (what, Q.show(c)), key=rule + "/skipped")
    ctx.need(n, rule, "ways without walk examined (%d)" % n)
    # the walk for graphs without cycles is not used for others
    for l, src in G.topo:
        g = {v[2][3][0] if v[2][0] == "A" else v[2] for _, v in (G.values(src) or [(None, src)])}
        for pc in R.before(l):
            for c in pc:
                k = [E.decide(c, b(S("cyclic", x))) for x in g]
                ctx.need(NO in k, rule, "topological walk without cycles", "the topological walk is used although the graph may have cycles (nodes on cycles would be left out), when %s" % Q.show(c), key=rule + "/cyclic")
    return fl


def acyclic(ctx):
    R = Run(ctx)
    W = Roles(R)
    intact(ctx, R, W)
    G = propagation(ctx, R, W)
    E = R.E
    when(ctx, R, W, G, "when")
    untouched(ctx, R, W, G)
    tl = {l for l, _ in G.topo + G.scc}
    for e in G.stores:
        ctx.need(e.loops and e.loops[0] in tl, "recorded", "in a walk", "a bound is recorded outside the walks: %s" % pp(e.data)[:160], e.loc)
    for l, src in G.topo:
        for _, v in G.values(src) or [(None, src)]:
            ctx.need(v[2][0] == "A" and v[2][1].endswith("Reversed"), "order", "callees first", "callers are visited before their callees (the edges are not reversed): %s" % pp(v)[:100])
        for e in R.find("visit", loop=l):
            if e.data[0] == src and e.loops == (l,):
                a = e.data[1]
                ctx.need(a[0] == "A" and a[1].endswith("Reversed"), "order", "walk follows reversed edges", "the walk does not follow the reversed edges: %s" % pp(a)[:100], e.loc)
        g = same_graph(ctx, G, l, src, "order", lambda v: v[2][3][0] if v[2][0] == "A" else v[2])
        if g is None:
            ctx.violate("recorded/none", "the topological walk records no bound")
            continue
        for e in R.find("visit", loop=l):
            if e.data[0] == src and e.data[1][0] == "A":
                ctx.need(e.data[1][3][0] == g, "order", "walks the graph that is updated", "the walk continues on another graph", e.loc)
        p = R.whole(l, src)
        if not ctx.need(p is not None, "order", "visits each node in turn", "not every node is visited"):
            continue
        for pc in R.exits(l):
            bad = [c for c in pc if not R.ended(c, src, p)]
            ctx.need(not bad, "order", "until all are visited", "the walk ends early when " + (Q.show(bad[0]) if bad else ""))
        node = S("elem", src, p)
        st = [e for e in G.stores if l in e.loops]
        for e in st:
            ctx.need(e.data[0][2][3] == node and e.loops == (l,), "recorded", "for the visited node", "the bound of another node is recorded: %s" % pp(e.data[0])[:160], e.loc)
            single(ctx, R, G, g, node, e)
        for pc in R.backs(l):
            r = Q.cover(E, pc, [e.pc for e in st if e.data[0][2][3] == node and e.loops == (l,)])
            ctx.need(r is None, "recorded", "for every node", "no bound is recorded for a node when " + (Q.show(r) if r else ""))


def untouched(ctx, R, W, G):
    """no other place gives a node a bound"""
    n = 0
    for e in R.find("add_node", lambda g, *_: is_m(g)):
        f = W.node_fields(e.data[1])
        if f is None and is_s(e.data[1], "at") and G.graph(e.data[1][2]):
            continue
        n += 1
        ctx.need(f is not None and f["max"] == NONE, "initial", "nodes start without bound", "a node is created with the bound %s" % (f and pp(f["max"])), e.loc)
    ctx.need(n, "initial", "creations examined")
    for e in R.find("store"):
        if is_s(e.data[0], "at") and G.graph(e.data[0][2]):
            ctx.violate("initial/overwritten", "a whole node is overwritten: %s" % pp(e.data)[:160], e.loc)


def single(ctx, R, G, g, node, e, rule="value"):
    """the recorded value is the node's own usage plus the maximum over all its callees"""
    E = G.E
    src = S("nbrs", g, node, "out")
    L = G.local(g, node)
    for c in e.pc:
        accs, why = reduced(G, c, src, lambda P, opt: G.known("callees", g, node, P, opt))
        if not ctx.need(accs, rule, "callees", "the recorded bound %s does not take the maximum over all callees into account: %s (when %s)" % (pp(e.data[1])[:160], why, Q.show(c)), e.loc, key=rule + "/callees"):
            return
        msg = None
        for view in accs:
            def spec(q):
                ex, n = G.loc(q, L)
                m = view(q)
                if m is None:
                    return some(G.mx(G.EX if ex else G.LB, n))
                return some(G.mx(G.EX if ex and m[0] else G.LB, S("add", n, m[1])))
            msg = agree(E, c, e.data[1], spec)
            if msg is None:
                break
        if not ctx.need(msg is None, rule, "own usage plus worst callee", msg, e.loc, key=rule + "/sum"):
            return


def reduced(G, c, src, check):
    """accumulators known to be complete under the facts c -> ([view], why not)"""
    E, R = G.E, G.R
    why = "nothing accumulates over the callees"
    if any(E.decide(c, b(S("more", s, ("i", 0)))) == NO for s in src_forms(src) if not is_s(s, "sub")):
        return [lambda q: None], None
    out = []
    for a, v in sorted(c, key=repr):
        if a[0] == "b" and a[1][1] == "more" and v == NO and a[1][2] in src_forms(src) and is_s(a[1][3], "phi"):
            for P, opt in G.acc_phis(a[1][3][2]):
                s, pos, msg = check(P, opt)
                if msg is None and s == a[1][2] and pos == a[1][3]:
                    out.append(lambda q, P=P, opt=opt: G.view(q, P, opt))
                elif msg:
                    why = "the accumulated value is not the maximum: " + msg
    return out, why


def src_forms(src):
    return src if isinstance(src, (set, list)) else [src]


def agree(E, c, got, spec):
    for F, want in Q.Spec(E, c).leaves(spec):
        if not Q.same(E, F, got, want):
            return "the recorded bound is %s, expected %s, when %s" % (pp(got)[:200], pp(want)[:200], Q.show(F))
    return None


def cycles(ctx):
    R = Run(ctx)
    W = Roles(R)
    intact(ctx, R, W)
    G = propagation(ctx, R, W)
    E = R.E
    when(ctx, R, W, G, "when")
    if not ctx.need(len(G.scc) == 1, "components", "walk over the components", "the components of a graph with cycles are not visited one after the other"):
        return
    l, src = G.scc[0]
    g = same_graph(ctx, G, l, src, "components", lambda v: v[2])
    p = R.whole(l, src)
    if not ctx.need(p is not None and g is not None, "components", "each in turn", "not every component is visited, or nothing is recorded"):
        return
    for pc in R.exits(l):
        bad = [c for c in pc if not R.ended(c, src, p)]
        ctx.need(not bad, "components", "until all are visited", "the walk over the components ends early when " + (Q.show(bad[0]) if bad else ""))
    # a cyclic graph is never left to the other walk (checked in `when`), so every bound of it is recorded here
    scc = S("elem", src, p)
    first = S("elem", scc, ("i", 0))
    big = b(S("lt", ("i", 1), S("len", scc)))

    def kind(c):
        """True: a cycle, False: a single function that does not call itself, None: not known"""
        c1 = Q.add(E, c, b(E.eq(S("len", scc), ("i", 0))), NO)     # components are not empty
        k = E.decide(c1 if c1 is not None else c, big)
        if k == YES or has_self(E, c, g, first):
            return True
        if k == NO and no_self(G, c, g, first):
            return False
        return None
    # ---- report of the cycles
    args = {e.data[2] for e in R.find("call", lambda n, *a: n == "dot" and len(a) == 2)}
    vec = one(args, "list of cycles handed to the output")
    push = R.find("push", lambda v, x: v == vec)
    for e in push:
        bad = [c for c in e.pc if kind(c) is not True]
        ctx.need(e.data[1] == scc and e.loops == (l,), "reported", "the component", "something else than the component is reported as cycle: %s" % pp(e.data[1])[:120], e.loc)
        ctx.need(not bad, "reported", "only cycles", "a component that is no cycle is reported when " + (Q.show(bad[0]) if bad else ""), e.loc)
    others = [e for e in R.evs if e.kind in ("clear", "truncate", "remove", "pop", "retain", "insert", "extend", "sort", "dedup") and e.data and e.data[0] == vec]
    ctx.need(not others, "reported", "list only grows", "the list of cycles is modified otherwise (%s)" % (others and others[0].kind), others and others[0].loc)
    st = [e for e in G.stores if l in e.loops]
    inner = {}
    for e in st:
        for s in (scc, S("rev", scc)) if len(e.loops) == 2 else ():
            if s in R.counters(e.loops[1]):
                inner[e.loops[1]] = (s, R.whole(e.loops[1], s))
    n = [0, 0]
    for pc in R.backs(l):
        for c in pc:
            k = kind(c)
            if not ctx.need(k is not None, "classified", "cycle or not", "a component is treated the same whether or not it is a cycle, when " + Q.show(c), key="classified"):
                continue
            n[k] += 1
            if k:
                r = Q.uncovered(E, c, [d for e in push if e.data[1] == scc for d in e.pc])
                ctx.need(r is None, "reported", "every cycle", "a cycle is not reported when " + (Q.show(r) if r else ""), key="reported/missing")
                ctx.need(any(q is not None and R.ended(c, s, q) for s, q in inner.values()), "members", "every member", "not all members of a cycle get a bound when " + Q.show(c), key="members/all")
            else:
                ds = [d for e in st if e.loops == (l,) and e.data[0][2][3] == first for d in e.pc]
                r = Q.uncovered(E, c, ds) if ds else c
                if r is not None and any(q is not None and R.ended(c, s, q) for s, q in inner.values()):
                    r = None
                ctx.need(r is None, "single", "function outside cycles", "a function outside cycles gets no bound when " + (Q.show(r) if r else ""), key="single/missing")
    ctx.need(all(n), "classified", "both kinds examined (%d/%d)" % tuple(n))
    for li, (s, q) in inner.items():
        for pc in R.backs(li):
            r = Q.cover(E, pc, [e.pc for e in st if li in e.loops and q is not None and e.data[0][2][3] == S("elem", s, q)])
            ctx.need(r is None, "members", "each in turn", "a member gets no bound when " + (Q.show(r) if r else ""))
    # ---- values
    for e in st:
        node = e.data[0][2][3]
        isfirst = node == first and e.loops == (l,)
        ismember = len(e.loops) == 2 and e.loops[1] in inner and node == S("elem", *inner[e.loops[1]])
        if not ctx.need(isfirst or ismember, "value", "of a member", "the bound of some other node is recorded: %s" % pp(node)[:160], e.loc):
            continue
        ks = {kind(c) for c in e.pc}
        if ks == {False} and isfirst:
            single(ctx, R, G, g, node, e, "single")
        elif ks == {True} and ismember:
            cycle(ctx, R, G, g, scc, e)
        else:
            ctx.violate("value/mixed", "the same bound is recorded for cycles and for functions outside cycles: %s" % pp(e.data[1])[:160], e.loc)


def cycle(ctx, R, G, g, scc, e):
    E = G.E
    staged = {a[1][2] for c in e.pc for a, v in c if a[0] == "b" and a[1][1] == "more" and (is_s(a[1][2], "staged") and a[1][2][2] == scc or is_m(a[1][2]) and R.find("push", lambda v, x: v == a[1][2]))}
    for c in e.pc:
        ls, why = reduced(G, c, [scc, S("rev", scc)] + G.tails(scc), lambda P, opt: G.known("locals", g, scc, P, opt))
        if not ctx.need(ls, "cycle", "own usage", "the recorded bound %s does not contain the largest local usage of the cycle: %s" % (pp(e.data[1])[:160], why), e.loc, key="cycle/local"):
            return
        os_, why = outside(G, c, g, scc, staged)
        if not ctx.need(os_, "cycle", "callees outside", "the recorded bound %s does not take the callees outside the cycle into account: %s" % (pp(e.data[1])[:160], why), e.loc, key="cycle/outside"):
            return
        msg = None
        for lv in ls:
            for ov in os_:
                def spec(q):
                    l = lv(q)
                    if l is None:
                        l = (True, ("i", 0))
                    ex = l[0] and bool(q(b(E.eq(l[1], ("i", 0)))) if l[1] != ("i", 0) else 1)
                    m = ov(q)
                    if m is None:
                        return some(G.mx(G.EX if ex else G.LB, l[1]))
                    return some(G.mx(G.EX if ex and m[0] else G.LB, S("add", l[1], m[1])))
                msg = agree(E, c, e.data[1], spec)
                if msg is None:
                    break
            if msg is None:
                break
        if not ctx.need(msg is None, "cycle", "largest local usage plus worst callee outside", msg, e.loc, key="cycle/sum"):
            return


def outside(G, c, g, scc, staged):
    """as reduced(), for the callees outside the component"""
    E, R = G.E, G.R
    why = "nothing accumulates over them"
    out = []
    for s in staged:
        # an accumulator over this filtered sequence must exist and be right, also where it is empty
        ok = []
        for lid in R.E.loops:
            if s in R.counters(lid):
                for P, opt in G.acc_phis(lid):
                    _, pos, msg = G.known("outside", g, scc, P, opt)
                    if msg is None:
                        ok.append((P, opt, pos))
                    else:
                        why = msg
        if not ok:
            continue
        if E.decide(c, b(S("more", s, ("i", 0)))) == NO:
            out.append(lambda q: None)
        for P, opt, pos in ok:
            if E.decide(c, b(S("more", s, pos))) == NO:
                out.append(lambda q, P=P, opt=opt: G.view(q, P, opt))
    for a, v in sorted(c, key=repr):
        if a[0] == "b" and a[1][1] == "more" and v == NO and a[1][2] == scc and is_s(a[1][3], "phi"):
            for P, opt in G.acc_phis(a[1][3][2]):
                _, pos, msg = G.known("outside", g, scc, P, opt)
                if msg is None and pos == a[1][3]:
                    out.append(lambda q, P=P, opt=opt: G.view(q, P, opt))
                elif msg:
                    why = msg
    return out, why
