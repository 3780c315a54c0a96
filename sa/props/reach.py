"""Restriction of the call graph to what is reachable from the start point (C04)."""
from engine import S, pp, Incomplete, some, NONE, cranges
import q as Q
from q import b, var
from run import Run, Roles, is_s, is_m, one, fidx
from props.edges import YES, NO
from props.propagate import Graphs


def subs(t, f):
    return [x for x in Q.subterms(t) if f(x)]


class Start:
    def __init__(self, ctx):
        self.ctx = ctx
        self.R = R = Run(ctx)
        self.W = W = Roles(R)
        self.E = R.E
        W.setup_maps()
        self.G = Graphs(ctx, R, W)
        args = one([a for a in ctx.j["adts"] if any("start" in v["fields"] for v in ctx.j["adts"][a]["variants"]) and a.endswith("Args")], "type of the command line")
        i = fidx(ctx, args, "start")
        ts = {x for j in range(len(R.E.phases)) for pc in R.E.phases[j][3] for c in pc for a, v in c
              for x in ([a[1]] if is_s(a[1], "f", 3) and a[1][3:] == (0, i) and is_s(a[1][2], "call") and "parse" in a[1][2][2] else [])}
        ts |= {x for e in R.evs for c in e.pc for a, v in c for x in [a[1]] if is_s(x, "f", 3) and x[3:] == (0, i) and is_s(x[2], "call") and "parse" in x[2][2]}
        if not ts:
            raise Incomplete("the start argument is not consulted")
        self.opt = one(ts, "start argument")
        self.start = S("f", self.opt, 1, 0)

    def lookups(self, conjs, m, key):
        """atoms that ask whether the map has the key"""
        out = set()
        for c in conjs:
            for a, v in c:
                if a[0] == "var" and is_s(a[1], "get") and a[1][2:4] == (m, key):
                    out.add(a)
                if a[0] == "b" and a[1][1] == "has" and a[1][2:4] == (m, key):
                    out.add(a)
        return sorted(out, key=repr)

    def filled(self, V):
        """V collects exactly the names whose path without hash is the start argument -> message or None; sets self.elem"""
        E, R, W = self.E, self.R, self.W
        push = [e for e in R.find("push") if e.data[0] == V]
        if R.effects(V, ("push",)) or not push:
            return "the matches are not collected or changed afterwards"
        lid = None
        for e in push:
            if len(e.loops) != 1:
                return "matches are collected elsewhere"
            lid = lid or e.loops[0]
            if e.loops != (lid,):
                return "matches are collected in several loops"
        kv = [s for s in R.counters(lid) if is_s(s, "kv") and s[2] == W.INDICES]
        st = [s for s in R.counters(lid) if is_s(s, "staged") and is_s(s[2], "kv") and s[2][2] == W.INDICES]
        if len(kv) + len(st) < 1:
            return "the names of the functions are not searched"
        src = (st or kv)[0]
        p = R.whole(lid, src)
        if p is None:
            return "not all names are searched"
        pos = S("acc", src[3], p) if st else p
        key = S("key", W.INDICES, pos)
        self.elem = None
        for e in push:
            if e.data[1] == key or e.data[1] == S("val", W.INDICES, pos) or e.data[1] == S("at", W.INDICES, key):
                self.elem = (lid, pos, p, e.data[1])
            elif e.data[1][0] == "T" and key in e.data[1][1]:
                self.elem = (lid, pos, p, e.data[1])
            else:
                return "something else than the name is collected: %s" % pp(e.data[1])[:120]
        for pc in R.exits(lid):
            for c in pc:
                if not R.ended(c, src, p):
                    return "the search ends early when %s" % Q.show(c)
        m = self.matches(pos)
        for e in push:
            for c in e.pc:
                if not self.is_match(c, pos):
                    return "a name is taken as a match when %s" % Q.show(c)
        F = frozenset([(b(S("more", src, p)), YES)] + ([(b(S("more", src[2], pos)), YES)] if st else []) + m)
        for pc in R.entries(lid) if st else R.backs(lid):
            r = Q.cover(E, pc, [e.pc for e in push], F)
            if r is not None:
                return "a name is not taken as a match when %s" % Q.show(r)
        return None

    def dehashed(self, pos):
        return S("dehash", S("demangle", S("key", self.W.INDICES, pos)))

    def matches(self, pos):
        d = self.dehashed(pos)
        return [(var(d), YES), (b(self.E.eq(S("f", d, 1, 0), self.start)), YES)]

    def is_match(self, c, pos):
        return all(self.E.decide(c, a) == v for a, v in self.matches(pos))

    def node_of(self, V):
        """node of the first match"""
        lid, pos, p, x = self.elem
        at0 = S("ix", lid, V, ("i", 0))
        pos0 = Q.subst(pos, {p: at0})
        k = S("key", self.W.INDICES, pos0)
        return {S("at", self.W.INDICES, k), S("val", self.W.INDICES, pos0)}

    def count(self, c, V):
        """(lowest, highest, excluded) number of matches"""
        lo, hi, ex = 0, None, set()
        for t, (l, h, x) in cranges(c).items():
            if is_s(t, "len") and t[2] == V:
                lo = max(lo, l or 0)
                hi = h if hi is None else hi if h is None else min(hi, h)
                ex |= set(x)
        for a, v in c:
            if a[0] == "b" and a[1][1] == "more" and a[1][2] == V and a[1][3][0] == "i":
                k = a[1][3][1]
                if v == YES:
                    lo = max(lo, k + 1)
                else:
                    hi = k if hi is None else min(hi, k)
        return lo, hi, ex


def filtered(ctx):
    D = Start(ctx)
    R, W, E, G = D.R, D.W, D.E, D.G
    graphs = {e.data[0] for e in R.find("add_node", lambda g, *_: is_m(g))} | {e.data[0] for e in R.find("add_edge", lambda g, *_: is_m(g))}
    new = sorted(graphs - {W.G}, key=repr)
    F = one(new, "graph of the reachable functions")
    tops = R.toploops()
    walks = {e.loops[0] for e in R.find("add_node", lambda g, *_: g == F) if e.loops} | {e.loops[0] for e in R.find("add_edge", lambda g, *_: g == F) if e.loops}
    L = one(walks, "walk over the reachable functions")
    if L not in tops:
        raise Incomplete("the walk over the reachable functions is not at the top level")
    k = tops.index(L)
    src, p, seqs = walk(ctx, D, L)
    if src is None:
        return
    copy(ctx, D, L, F, src, p)
    lookup(ctx, D, L, F, src, p, seqs)


def walk(ctx, D, L):
    R, W, E, G = D.R, D.W, D.E, D.G
    for src in R.counters(L):
        vs = G.values(src) or [(c, src) for pc in R.before(L) for c in pc]
        if all(is_s(v, "dfs") for _, v in vs):
            break
    else:
        ctx.violate("walk/none", "the copy is not driven by a traversal of the graph from the start")
        return None, None, None
    p = R.whole(L, src)
    ctx.need(p is not None, "walk", "each function in turn", "not every reachable function is visited")
    for _, v in vs:
        ctx.need(v[2] == W.G, "walk", "traverses the call graph", "something else than the call graph is traversed: %s" % pp(v[2])[:100])
    n = 0
    for e in R.find("visit", loop=L):
        if e.data[0] == src:
            n += 1
            ctx.need(e.data[1] == W.G, "walk", "continues on the call graph", "the traversal continues on another graph: %s" % pp(e.data[1])[:100], e.loc)
    ctx.need(n, "walk", "steps examined")
    for pc in R.exits(L):
        bad = [c for c in pc if not R.ended(c, src, p)]
        ctx.need(not bad, "walk", "until all are visited", "the traversal ends early when " + (Q.show(bad[0]) if bad else ""))
    return src, p, vs


def copy(ctx, D, L, F, src, p):
    """the new graph has a copy of every visited function and of every call"""
    R, W, E = D.R, D.W, D.E
    caller = S("elem", src, p)
    out = S("nbrs", W.G, caller, "out")
    nodes = R.find("add_node", lambda g, *_: g == F)
    edges = R.find("add_edge", lambda g, *_: g == F)
    for e in R.effects(F, ("add_node", "add_edge")):
        ctx.violate("copy/changed", "the new graph is changed otherwise (%s)" % e.kind, e.loc)
    ctx.need(not E.alloc_loops.get(F, ()), "copy", "one graph", "the new graph is created anew for each function")
    inner = {}
    for l in R.E.loops:
        if out in R.counters(l):
            inner[l] = R.whole(l, out)
    ctx.need(inner, "copy", "calls are visited", "the calls of a reachable function are not visited")
    callee = {l: S("elem", out, q) for l, q in inner.items() if q is not None}
    # ---- map from old to new nodes
    ins = [e for e in R.find("insert") + R.find("entry") if any(e.data[2] == n.data[2] for n in nodes)]
    M = one([e.data[0] for e in ins], "map from old to new functions")
    for e in R.effects(M, ("insert", "entry")):
        ctx.violate("copy/map", "the map of copied functions is changed otherwise (%s)" % e.kind, e.loc)
    ctx.need(not E.alloc_loops.get(M, ()), "copy", "one map", "the map of copied functions is created anew for each function")
    keyof = {}
    for n in nodes:
        ok = is_s(n.data[1], "at") and n.data[1][2] == W.G
        if not ctx.need(ok, "copy", "nodes are unchanged", "the copy of a function differs from the original: %s" % pp(n.data[1])[:200], n.loc):
            continue
        key = n.data[1][3]
        keyof[n.data[2]] = key
        ctx.need(n.loops == (L,) and key == caller or len(n.loops) == 2 and n.loops[0] == L and callee.get(n.loops[1]) == key, "copy", "of a reachable function",
                 "a function is copied that is neither the visited one nor its callee: %s" % pp(key)[:160], n.loc)
        for c in n.pc:
            ctx.need(any(D.E.decide(c, a) == NO for a in D.lookups([c], M, key)), "copy", "once each", "a function may be copied several times: " + Q.show(c), n.loc, key="copy/once")
        r = Q.cover(E, n.pc, [e.pc for e in ins if e.data[1:3] == (key, n.data[2]) and e.loops == n.loops])
        ctx.need(r is None, "copy", "remembered", "a copy is not remembered when " + (Q.show(r) if r else ""), n.loc)
    for e in R.find("insert", lambda m, *_: m == M) + R.find("entry", lambda m, *_: m == M):
        ctx.need(keyof.get(e.data[2]) == e.data[1], "copy", "the map has the copies", "the map relates %s to another function's copy" % pp(e.data[1])[:120], e.loc)
    at = lambda key: S("at", M, key)

    def is_copy(t, key):
        return t == at(key) or keyof.get(t) == key
    # ---- the visited function itself
    look = D.lookups([c for n in nodes for c in n.pc] + [c for pc in R.backs(L) for c in pc], M, caller)
    for pc in R.backs(L):
        r = Q.cover(E, pc, [n.pc for n in nodes if keyof.get(n.data[2]) == caller and n.loops == (L,)], frozenset((a, NO) for a in look))
        ctx.need(look and r is None, "copy", "every reachable function", "a reachable function is not copied when " + (Q.show(r) if r else "it is visited"), key="copy/missing")
        for c in pc:
            ctx.need(any(q is not None and R.ended(c, out, q) for q in inner.values()), "calls", "all calls", "not all calls of a function are looked at when " + Q.show(c), key="calls/all")
    # ---- calls
    for e in edges:
        l = e.loops[1] if len(e.loops) == 2 and e.loops[0] == L else None
        if not ctx.need(l in callee, "calls", "of the visited function", "a call is added outside the loop over the calls", e.loc):
            continue
        ctx.need(is_copy(e.data[1], caller), "calls", "from the caller", "the call starts at %s" % pp(e.data[1])[:160], e.loc)
        ctx.need(is_copy(e.data[2], callee[l]), "calls", "to the callee", "the call leads to %s" % pp(e.data[2])[:160], e.loc)
    for l in callee:
        for pc in R.backs(l):
            r = Q.cover(E, pc, [e.pc for e in edges if l in e.loops])
            ctx.need(r is None, "calls", "every call", "a call between reachable functions is left out when " + (Q.show(r) if r else ""), key="calls/missing")
            # callee known or created: the endpoint exists
    raw = {}
    for e in E.events:
        if e.kind == "add_edge" and e.data[0] == F:
            raw.setdefault(e.loc, []).append(e.pc)
    locs = sorted(raw, key=str)
    for i, x in enumerate(locs):
        for y in locs[i + 1:]:
            both = [m for px in raw[x] for py in raw[y] for c in py for m in Q.meets(E, px, c)]
            ctx.need(not both, "calls", "once each", "a call is added twice when " + (Q.show(both[0]) if both else ""), str(y))


def lookup(ctx, D, L, F, src, p, seqs):
    """which start is taken, and when"""
    R, W, E, G = D.R, D.W, D.E, D.G
    tops = R.toploops()
    k = tops.index(L)
    found = [(c, v[3]) for c, v in seqs]
    ways = []
    for j in range(k + 1, len(tops)):
        direct = [c for pc in R.E.phases[j][3] for c in pc if R.relphase(c) <= k]
        if not direct:
            continue
        phis = [P for P in E.phis if P[2] == ("phase", j) and G.graph(P)]
        if not ctx.need(phis, "result", "the graph depends on the start", "the graph analysed at %s does not depend on the start point" % R.E.phases[j][2]):
            continue
        for P in phis:
            for pc, v in E.phis[P]["init"]:
                for c in pc:
                    if R.relphase(c) <= k:
                        ways.append((c, v))
    for c, v in ways:
        ctx.need(v in (W.G, F), "result", "the call graph or its restriction", "another graph is analysed: %s" % pp(v)[:100])
    conjs = [c for c, _ in found] + [c for c, v in ways if v == W.G]
    conjs += [c for j in range(k) for pc in R.E.phases[j][3] for c in pc]
    s, opt = D.start, D.opt
    la = D.lookups(conjs, W.ALIASES, s)
    names = {True: S("at", W.ALIASES, s), False: s}
    li = {x: D.lookups(conjs, W.INDICES, n) for x, n in names.items()}
    ctx.need(la, "found", "aliases are resolved", "aliases of the start point are not looked up")
    ctx.need(li[True] and li[False], "found", "exact names", "the start point is not looked up by its exact name")
    vecs = sorted({t[2] for c in conjs for t in cranges(c) if is_s(t, "len") and is_m(t[2])} |
                  {a[1][2] for c in conjs for a, v in c if a[0] == "b" and a[1][1] == "more" and is_m(a[1][2])}, key=repr)
    hits = []
    why = "no name is compared with it"
    for V in vecs:
        msg = D.filled(V)
        if msg is None:
            hits.append((V, D.node_of(V)))
        else:
            why = msg
    ctx.need(hits, "found", "search by path", "the functions whose path without hash is the start point are not found properly: " + why)

    def stage(c):
        """'none' | ('exact', name) | 'path' | None: not known"""
        o = E.decide(c, var(opt))
        if o is None:
            # facts from before the last loop at the top level
            j = R.relphase(c)
            sts = {stage(d) for pc in R.E.phases[j][3] for d in pc} if 0 <= j < k else {None}
            return next(iter(sts)) if len(sts) == 1 else None
        if o == NO:
            return "none"
        if o != YES:
            return None
        al = {str(E.decide(c, a)) for a in la}
        al = True if al == {str(YES)} else False if al == {str(NO)} else None
        if al is None:
            return None
        ix = {str(E.decide(c, a)) for a in li[al]} - {"None"}
        if ix == {str(YES)}:
            return ("exact", names[al])
        return "path" if ix == {str(NO)} else None

    for c, x in found:
        st = stage(c)
        if st == "path":
            ok = any(x in ns and D.count(c, V)[0] >= 1 and D.count(c, V)[1] == 1 for V, ns in hits)
            ctx.need(ok, "found", "the only match", "the graph is restricted although the start point is unknown or ambiguous, or to another function (%s), when %s" % (pp(x)[:200], Q.show(c)), key="found/path")
        elif isinstance(st, tuple):
            ctx.need(x == S("at", W.INDICES, st[1]), "found", "the named function", "the graph is restricted to %s instead of the named function" % pp(x)[:200], key="found/exact")
        else:
            ctx.violate("found/other", "the graph is restricted to %s when %s" % (pp(x)[:160], Q.show(c)))
    errs = [e.pc for e in R.find("log") if e.data[0][0] == "A" and e.data[0][2] == 0]
    n = {"none": 0, "path": 0}
    for c, v in ways:
        done = R.ended(c, src, p)
        if v == F:
            ctx.need(done, "result", "restricted after the copy", "the restricted graph is analysed before it is complete: " + Q.show(c), key="result/early")
            continue
        ctx.need(not done, "result", "copy is used", "the whole graph is analysed although the start point was found", key="result/unused")
        if done:
            continue
        st = stage(c)
        if st in n:
            n[st] += 1
        if st == "path":
            ok = any(h[1] == 0 or h[0] >= 2 or 1 in h[2] for h in (D.count(c, V) for V, _ in hits))
            ctx.need(ok, "result", "whole graph if not found or ambiguous", "the graph is not restricted although the start point matches one function, when " + Q.show(c), key="result/ignored")
            r = Q.cover(E, [c], errs)
            ctx.need(r is None, "result", "an error is logged", "the start point is not found and no error is logged when " + (Q.show(r) if r else ""), key="result/silent")
        else:
            ctx.need(st == "none", "result", "whole graph without start", "the graph is not restricted when " + Q.show(c), key="result/ignored")
    ctx.need(n["none"] and n["path"], "result", "ways without restriction examined (%d)" % sum(n.values()))
    isg = lambda g: g == F or is_s(g, "phi") and G.graph(g)
    bad = R.changed(isg) + [e for e in R.find("add_node") + R.find("add_edge") if isg(e.data[0]) and e.data[0] != F] + \
        [e for e in R.find("store") if is_s(e.data[0], "f") and is_s(e.data[0][2], "at", 2) and e.data[0][2][2] == F and not G.max_place(e.data[0])]
    ctx.need(not bad, "result", "unchanged afterwards", "the graph is changed after the restriction (%s)" % (bad and bad[0]), bad and bad[0].loc)
