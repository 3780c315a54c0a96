"""Nodes of the call graph, their names, and the sources of definitions and figures."""
from engine import S, pp, Incomplete
import q as Q
from q import b, var
from run import Run, Roles, fidx, is_s, is_m, one, intact
from props.edges import YES, NO

TAGS = ("a", "d", "t", "x")


def strip(t):
    """term without the version of container look-ups"""
    if not isinstance(t, tuple):
        return t
    if is_s(t, "get", 3):
        return S("get", strip(t[2]), strip(t[3]), 0)
    if is_s(t, "kv"):
        return S("kv", strip(t[2]), 0)
    return tuple(strip(x) for x in t)


def facts_on(E, conj, X):
    """facts of the conjunction that speak about X"""
    return frozenset((a, v) for a, v in conj if Q.contains(a[1], lambda t: t == X))


def rename(conj, X, Y):
    return frozenset(((a[0], Q.subst(a[1], {X: Y})) + a[2:], v) for a, v in conj)


class Names:
    """which names of the symbol reach a point of the loop over the symbols"""

    def __init__(self, W):
        self.W, self.R, self.E = W, W.R, W.E
        self.L = W.symloop
        self.addr = S("key", W.SYMS, W.sympos)
        self.names = S("names", S("at", W.SYMS, self.addr))
        self.entry = frozenset().union(*[frozenset(c) for pc in self.R.entries(self.L) for c in pc]) if self.R.entries(self.L) else frozenset()

    def member(self, t):
        return is_s(t, "elem", 2) and t[2] == self.names

    def accepts(self, e, X):
        """conjunctions of facts on a name under which the event happens for it"""
        ok, more = [], []
        for c in e.pc:
            mine = facts_on(self.E, c, X)
            ok.append(frozenset((a, v) for a, v in mine if not (a[0] == "b" and a[1][1] == "more")))
        return ok

    def complete(self, e, X, depth=0):
        """-> (problem or None, conditions): the event of innermost loop visits every name X for which a condition holds"""
        R, E = self.R, self.E
        if depth > 3 or len(e.loops) < 2:
            return "it is not done for each name", []
        l = e.loops[-1]
        for src in R.counters(l):
            p = R.whole(l, src)
            if p is None:
                return "the loop does not start at the first name or skips names", []
            for pc in R.exits(l):
                bad = [c for c in pc if not R.ended(c, src, p)]
                if bad:
                    return "the loop ends before all names are visited when " + Q.show(bad[0]), []
            for pc in R.backs(self.L):
                bad = [c for c in pc if not R.ended(c, src, p)]
                if bad:
                    return "the loop is bypassed when " + Q.show(bad[0]), []
            base = src[2] if is_s(src, "staged") else src
            conds = [rename(c, X, "X") for c in self.accepts(e, X)]
            if base == self.names:
                return None, conds
            if is_m(base):
                pushes = R.find("push", lambda m, *_: m == base)
                allc, prob = [], None if pushes else "the collection of names is never filled"
                for pe in pushes:
                    if self.L not in pe.loops or not self.member(pe.data[1]):
                        prob = prob or "something else than a name is collected"
                        continue
                    pr, cs = self.complete(pe, pe.data[1], depth + 1)
                    prob = prob or pr
                    allc += cs
                if prob:
                    return prob, []
                # facts known of every member of the collection
                out = []
                for c in conds:
                    for d in allc:
                        m = Q.merge(E, c, d)
                        if m is not None:
                            out.append(m)
                return None, out
        return "it is not done for each name", []


def tagged(q, X):
    for t in TAGS:
        if q(b(S("seq", X, "$" + t))) or q(b(S("pre", X, "$%s." % t))):
            return t
    return None


def tags_possible(E, conj, X):
    """tag families the name may belong to under the facts (the two the tool has to filter)"""
    r = []
    for t in ("a", "x"):
        for a in (b(S("seq", X, "$" + t)), b(S("pre", X, "$%s." % t))):
            if E.decide(conj, a) != NO:
                r.append(t)
    return r


def sizes_map(W, nodes):
    """map the usage figures of the nodes come from"""
    r = set()
    for f, e in nodes:
        l = f["local"]
        if l[0] == "A" and l[2] == W.local_v["Exact"] and is_s(l[3][0], "at"):
            r.add(l[3][0][2])
    return one(r, "map of stack usage figures")


def function_nodes(ctx):
    R = Run(ctx)
    W = Roles(R)
    intact(ctx, R, W)
    W.setup_maps()
    E, L = R.E, W.symloop
    N = Names(W)
    ctx.need(W.sympos is not None, "every-symbol", "in order", "the symbols are not visited one after the other")
    if W.sympos is None:
        return
    ctx.need(R.unavoidable(L) is None, "every-symbol", "unavoidable", "the loop over the symbols can be bypassed: %s" % R.unavoidable(L))
    src = S("kv", W.SYMS, *W.kvver(L))
    for pc in R.exits(L):
        bad = [c for c in pc if not R.ended(c, src, W.sympos)]
        ctx.need(not bad, "every-symbol", "to the end", "the loop over the symbols ends early when " + (Q.show(bad[0]) if bad else ""))
    nodes = []
    for e in R.find("add_node", lambda g, *_: g == W.G):
        if L in e.loops:
            f = W.node_fields(e.data[1])
            ctx.need(f is not None and e.loops == (L,), "node-per-symbol", "one per address", "a node is added several times per symbol, or in an unknown shape: " + pp(e.data)[:150], e.loc)
            if f is not None:
                nodes.append((f, e))
    # ---- exactly one node per address
    for pc in R.backs(L):
        r = Q.cover(E, pc, [e.pc for _, e in nodes])
        ctx.need(r is None, "node-per-symbol", "at least one", "a symbol gets no node when " + (Q.show(r) if r else ""))
    for i, (f, e) in enumerate(nodes):
        for g, e2 in nodes[:i]:
            for c in e.pc:
                m = Q.meets(E, e2.pc, c) if e.data[2] != e2.data[2] or e.data[1] != e2.data[1] else []
                ctx.need(not m, "node-per-symbol", "at most one", "a symbol gets two nodes when " + (Q.show(m[0]) if m else ""), e.loc)
    SZ = sizes_map(W, nodes)
    strip_c = lambda c: frozenset((strip(a), v) for a, v in c)
    has = lambda x: var(S("get", SZ, x, 0))
    for f, e in nodes:
        nm, nn = f["name"], e.data[2]
        ctx.need(N.member(nm), "canonical-name", "a name of the symbol", "the node is not named after its symbol: " + pp(nm)[:120], e.loc)
        for c in e.pc:
            t = tags_possible(E, c, nm)
            ctx.need(not t, "canonical-name", "no mapping symbol", "a mapping symbol $%s may name the node when %s" % ("/$".join(t), Q.show(c)), e.loc)
        # ---- registrations for this node
        ins = [x for x in R.find("insert") if L in x.loops]
        for m, k, v, what in ((W.INDICES, nm, nn, "name to node"), (W.ADDR2NAME, N.addr, nm, "address to name")):
            cov = [x.pc for x in ins if x.data[0] == m and x.data[1] == k and x.data[2] == v]
            r = Q.cover(E, e.pc, cov)
            ctx.need(r is None, "registered", what, "%s is not recorded when %s" % (what, Q.show(r) if r else ""), e.loc)
    # ---- no other registrations
    for x in R.find("insert"):
        if L not in x.loops or x.data[0] not in (W.INDICES, W.ADDR2NAME, W.ALIASES):
            continue
        k, v = x.data[1:3]
        for f, e in nodes:
            for c in x.pc:
                m = Q.meets(E, e.pc, frozenset((a, w) for a, w in c if not (a[0] == "b" and a[1][1] == "more" and Q.contains(a[1], lambda t: is_s(t, "phi") and t[2] in x.loops[1:]))))
                if not m:
                    continue
                if x.data[0] == W.INDICES:
                    good = N.member(k) and v == e.data[2]
                elif x.data[0] == W.ADDR2NAME:
                    good = k == N.addr and v == f["name"]
                else:
                    good = N.member(k) and v == f["name"]
                what = {W.INDICES: "names to nodes", W.ADDR2NAME: "addresses to names", W.ALIASES: "names to canonical names"}[x.data[0]]
                ctx.need(good, "registered", what + " consistent", "a wrong entry of %s: %s -> %s" % (what, pp(k)[:100], pp(v)[:100]), x.loc)
    # ---- every name leads to the node
    al = [x for x in R.find("insert") if x.data[0] == W.ALIASES and L in x.loops]
    conds, probs = [], []
    for x in al:
        if x.loops == (L,):
            # the canonical name itself
            continue
        p, cs = N.complete(x, x.data[1])
        if p:
            probs.append((p, x.loc))
        else:
            # the same alias under each choice of canonical name
            conds += cs
    ctx.need(bool(al) and not probs, "aliases", "for each name", "not every name leads to the node: " + (probs[0][0] if probs else "no name is recorded"), probs[0][1] if probs else None)
    if al and not probs:
        groups = {}
        for x in al:
            groups.setdefault(x.loops, []).append(x)

        def spec(q):
            return tagged(q, "X") is None
        for F, r in Q.Spec(E).leaves(spec):
            if r:
                u = Q.cover(E, frozenset([F]), [frozenset(drop_sizes(c, SZ) for c in conds)])
                ctx.need(u is None, "aliases", "all but mapping symbols", "a name does not lead to the node: name with " + (Q.show(u) if u else ""))
        # in each iteration the alias loop covers all choices of the canonical name
        for loops, xs in groups.items():
            if len(loops) != 2:
                continue
            for pc in R.backs(loops[-1]):
                r = Q.cover(E, pc, [x.pc for x in xs])
                r2 = r
                if r is not None:
                    X = xs[0].data[1]
                    r2 = None if not all(E.decide(r, a) == v for c in [frozenset()] for a, v in c) else r
                    # an iteration without an entry is one for a mapping symbol
                    if tags_possible(E, r, X):
                        r2 = None
                ctx.need(r2 is None, "aliases", "recorded in each iteration", "a name is passed over when " + (Q.show(r2) if r2 else ""))
    # ---- the canonical name is one with a figure if there is one
    for f, e in nodes:
        nm = f["name"]
        for c in e.pc:
            ctx.need(best_choice(R, N, SZ, c, nm), "canonical-choice", "one with stack information", "another name of the symbol may have stack information when " + Q.show(strip_c(c)), e.loc,
                     key="canonical-choice/%s" % pp(nm)[-40:])
    sources(ctx, R, W, SZ)
    shown_names(ctx, R, W)
    dehash_fn(ctx)


def drop_sizes(c, SZ):
    return frozenset((a, v) for a, v in c if not (is_s(a[1], "get") and a[1][2] == SZ) and a[0] != "dummy")


def best_choice(R, N, SZ, c, nm):
    E = R.E
    sc = {strip(a): v for a, v in c}
    if sc.get(var(S("get", SZ, nm, 0))) == YES:
        return True
    for a, v in sc.items():
        if a[0] != "b":
            continue
        t = a[1]
        # all candidates have been searched
        if t[1] == "more" and v == NO:
            srct, p = t[2], t[3]
            if is_s(p, "phi"):
                lid = p[2]
                if lid == N.L or srct not in {strip(s) for s in R.counters(lid)} or not searched(R, N, srct):
                    continue
                src = next(s for s in R.counters(lid) if strip(s) == srct)
                if R.whole(lid, src) is None:
                    continue
                good = True
                for pc in R.backs(lid):
                    for d in pc:
                        sd = {strip(x): w for x, w in d}
                        good = good and any(x[0] == "var" and is_s(x[1], "get") and x[1][2] == SZ and Q.contains(x[1][3], lambda y: y == p) and w == NO for x, w in sd.items())
                if good:
                    return True
            elif is_s(srct, "staged") and p == ("i", 0) and searched(R, N, srct[2]):
                # every candidate is rejected by the predicate; it accepts whatever has a figure
                if accepts_all(R, N, SZ, srct):
                    return True
        # a single candidate
        if t[1] == "lt" and t[2] == ("i", 1) and is_s(t[3], "len") and v == NO and searched(R, N, t[3][2]):
            return True
        if t[1] == "lt" and t[3] == ("i", 2) and is_s(t[2], "len") and v == YES and searched(R, N, t[2][2]):
            return True
        if t[1] == "eq" and ("i", 1) in t[2:4] and any(is_s(x, "len") and searched(R, N, x[2]) for x in t[2:4]) and v == YES:
            return True
        if t[1] == "more" and t[3] == ("i", 1) and v == NO and searched(R, N, t[2]):
            return True
    return False


def searched(R, N, src):
    """the source holds all the symbol's names (without mapping symbols)"""
    if src == N.names:
        return True
    if is_s(src, "staged"):
        return src[2] == N.names
    if is_m(src):
        return bool(R.find("push", lambda m, *_: m == src))
    return False


def accepts_all(R, N, SZ, staged):
    """the filter lets every name with a figure pass (and looks at nothing else)"""
    E = R.E
    acc = set()
    for e in R.evs:
        for c in e.pc:
            k = [a for a, v in c if a[0] == "b" and a[1][1] == "more" and strip(a[1][2]) == staged and v == YES]
            for a in k:
                xs = {t for a2, _ in c for t in Q.subterms(a2[1]) if is_s(t, "elem", 2) and t[2] == N.names and Q.contains(t[3], lambda y: is_s(y, "acc") and y[2] == staged[3])}
                for X in xs:
                    acc.add(rename(frozenset((strip(f), v) for f, v in facts_on(E, c, X)), X, "X"))
    want = frozenset([(var(S("get", SZ, "X", 0)), YES)])
    tagfree = lambda c: frozenset((a, v) for a, v in c if a[1][1] not in ("seq", "pre", "more"))
    return bool(acc) and Q.cover(E, frozenset([want]), [frozenset(tagfree(c) for c in acc)]) is None


# ------------------------------------------------------------------ where figures and definitions come from
def sources(ctx, R, W, SZ):
    E = R.E
    # definitions and declarations of every parsed file
    for M, variant in ((W.DEFINES, "Define"), (W.DECLARES, "Declare")):
        ins = R.find("insert", lambda m, *_: m == M)
        srcs = {}
        for e in ins:
            k, v = e.data[1:3]
            ok = is_s(v, "f") and is_s(v[2], "elem", 2) and Q.contains(v[2][2], lambda t: is_s(t, "irparse")) and k == S("f", v, 0, fidx(ctx, "ir::%s::%s" % ("define" if variant == "Define" else "item", variant), "name"))
            ctx.need(ok, "definitions", variant + " under its name", "an item is recorded under another name: %s -> %s" % (pp(k)[:90], pp(v)[:90]), e.loc)
            if ok:
                srcs.setdefault(v[2][2], []).append((v[2], e))
        for s, xs in srcs.items():
            for lid in {e.loops[-1] for _, e in xs if e.loops}:
                p = R.whole(lid, s)
                ctx.need(p is not None and R.unavoidable(lid) is None, "definitions", "all items are visited", "the items of a file are not all visited (%s)" % pp(s)[:80])
                item = S("elem", s, p)
                F = frozenset([(var(item, len(W.item_v)), ("in", frozenset([W.item_v[variant]])))])
                for pc in R.backs(lid):
                    if p is None:
                        continue
                    mine = frozenset(c for c in pc if E.decide(c, b(S("more", s, p))) == YES)
                    r = Q.cover(E, mine, [e.pc for x, e in xs], F)
                    ctx.need(r is None, "definitions", "each %s is recorded" % variant, "a %s is not recorded when %s" % (variant, Q.show(r) if r else ""))
                for pc in R.exits(lid):
                    bad = [c for c in pc if p is None or not (R.ended(c, s, p) or E.decide(c, b(S("more", s, p))) is not None)]
                    early = [c for c in pc if p is not None and not R.ended(c, s, p)]
                    ctx.need(not early, "definitions", "to the end", "items are left out when " + (Q.show(early[0]) if early else ""))
        ctx.need(len({q_ for q_ in srcs}) >= 2, "definitions", "%ss of the program and the support library" % variant, "%ss are taken from %d file(s) instead of the program and the support library" % (variant, len(srcs)))
    # usage figures
    objs = {}
    for e in R.find("insert", lambda m, *_: m == SZ):
        k, v = e.data[1:3]
        fst = lambda t: Q.contains(t, lambda x: is_s(x, "call") and x[2] == "stack_sizes::analyze_object")
        m = v[2] if is_s(v, "at") else None
        ok = m is not None and fst(m) and is_s(k, "key") and k[2] == m and v[3] == k
        ctx.need(ok, "figures", "taken over unchanged", "a figure is changed: %s -> %s" % (pp(k)[:80], pp(v)[:80]), e.loc)
        if ok:
            objs.setdefault(m, []).append(e)
    for m, es in objs.items():
        lid = es[0].loops[-1] if es[0].loops else None
        s = next((s for s in R.counters(lid) if is_s(s, "kv") and s[2] == m), None) if lid is not None else None
        p = R.whole(lid, s) if s is not None else None
        ctx.need(p is not None, "figures", "all figures of a file", "not every figure of a file is taken over", es[0].loc)
        if p is None:
            continue
        for pc in R.backs(lid):
            r = Q.cover(E, pc, [e.pc for e in es])
            ctx.need(r is None, "figures", "each figure", "a figure is left out when " + (Q.show(r) if r else ""), es[0].loc)
        for pc in R.exits(lid):
            bad = [c for c in pc if not R.ended(c, s, p)]
            ctx.need(not bad, "figures", "to the end", "figures are left out when " + (Q.show(bad[0]) if bad else ""), es[0].loc)
    ctx.need(len(objs) >= 2, "figures", "of the program and the support library", "figures are taken from %d file(s) instead of the program and the support library" % len(objs))
    # members of the support library's archive
    for m, es in objs.items():
        outer = es[0].loops[0] if len(es[0].loops) > 1 else None
        member = any(a[0] == "var" and is_s(a[1], "call") and "next_entry" in str(a[1][2]) and v == YES for e in es for c in e.pc for a, v in c)
        ctx.need(outer is not None or not member, "figures", "of every member of the archive", "the figures of only one member of the archive are read", es[0].loc)
        if outer is None:
            continue
        ident = set()
        for e in es:
            for c in e.pc:
                for a, v in c:
                    if a[0] == "b" and a[1][1] in ("cont", "suf", "pre") and v == YES and Q.contains(a[1], lambda t: is_s(t, "call") and "next_entry" in str(t[2])):
                        ident.add(a[1][2])
        if not ident:
            ctx.ok("figures", "of every archive member")
            continue
        X = one(ident, "name of the archive member")
        # an object file of the library is never passed over
        F = frozenset([(b(S("cont", X, "compiler_builtins")), YES), (b(S("suf", X, ".o")), YES)])
        lid = es[0].loops[-1]
        s = next(s for s in R.counters(lid) if is_s(s, "kv") and s[2] == m)
        p = R.whole(lid, s)
        for pc in R.backs(outer):
            left = [c for c in Q.meets(E, pc, F) if not R.ended(c, s, p) and not bad_utf8(E, c)]
            ctx.need(not left, "figures", "of every object of the library", "the figures of an object of the support library are passed over when " + (Q.show(left[0]) if left else ""), es[0].loc)
        for pc in R.exits(outer):
            bad = [c for c in pc if not any(a[0] == "var" and archive_end(a[1], v) for a, v in c)]
            ctx.need(not bad, "figures", "every archive member is visited", "the archive is not read to its end when " + (Q.show(bad[0]) if bad else ""), es[0].loc)
    thumb_bit(ctx, R, W)
    # names of undefined symbols are freed of nothing but their version
    raw = fidx(ctx, "stack_sizes::Functions", "undefined")
    for e in R.find("sins", lambda m, v: W.is_undef(m)):
        v = e.data[1]
        x = next((t for t in Q.subterms(v) if is_s(t, "elem", 2) and is_s(t[2], "f") and t[2][3:] == (0, raw)), None)
        for c in e.pc:
            ver = [t for a, w in c for t in Q.subterms(a[1]) if x is not None and len(t) > 3 and t[0] == "S" and t[2] == x and t[3] in ("@@", ("s", "@@"))]
            if v == x:
                # has no version
                good = any(a[0] == "b" and a[1][1] == "more" and a[1][3] in (("i", 0), ("i", 1)) and a[1][2] in ver and w == NO or w == NO and a[1] in ver for a, w in c) or not ver
            else:
                good = x is not None and any(v == y for t in ver for y in (S("elem", t, ("i", 1)) if t[1].startswith("rsplit") else S("elem", t, ("i", 0)), S("f", S("f", t, 1, 0), 0, 0))) \
                    or x is not None and is_s(v, "sub") and v[2] == x and v[3] == ("i", 0)
            ctx.need(good, "undefined-name", "only the version is removed", "the name of an undefined symbol is changed: %s when %s" % (pp(v)[:100], Q.show(c)), e.loc)


def archive_end(t, v):
    """no further member, or the run fails"""
    if is_s(t, "call") and "next_entry" in str(t[2]):
        return v == NO
    if is_s(t, "f") and is_s(t[2], "call") and "next_entry" in str(t[2][2]):
        return v == YES
    return is_s(t, "call") and v == YES


def bad_utf8(E, c):
    """the member's name is no text"""
    return any(a[0] == "var" and is_s(a[1], "utf8") and v == YES for a, v in c)


def thumb_bit(ctx, R, W):
    """the symbols' addresses are used without the thumb bit on the targets that have one"""
    E = R.E
    mask = lambda t: is_s(t, "bitand") and ("i", (1 << 64) - 2) in t[2:] or is_s(t, "bitand") and ("i", -2) in t[2:]
    ms = {e.data[0] for e in R.find("insert", lambda m, k, v: is_m(m) and mask(k))}
    for m in ms:
        for e in R.find("insert", lambda x, *_: x == m):
            for c in e.pc:
                k = E.decide(c, ("var", W.TARGET, len(W.target_v)))
                ctx.need(mask(e.data[1]) and k is not None and k[0] == "in" and W.target_v["Other"] not in k[1], "thumb-bit", "cleared only on thumb targets",
                         "addresses are changed on a target without thumb bit, or the bit is kept: " + Q.show(c), e.loc)
            lid = e.loops[-1]
            for s in R.counters(lid):
                p = R.whole(lid, s)
                ctx.need(p is not None, "thumb-bit", "all symbols", "symbols are lost when the thumb bit is cleared", e.loc)
                for pc in R.backs(lid):
                    r = Q.cover(E, pc, [x.pc for x in R.find("insert", lambda x, *_: x == m) if x.loops == e.loops])
                    ctx.need(r is None, "thumb-bit", "each symbol", "a symbol is lost when the thumb bit is cleared: " + (Q.show(r) if r else ""), e.loc)
    ctx.need(bool(ms), "thumb-bit", "cleared", "the thumb bit of the symbols' addresses is not cleared")
    # the loop over the symbols works with the cleared addresses on thumb targets
    ent = E.phis.get(W.SYMS)
    if ent:
        for pc, v in ent["init"]:
            for c in pc:
                k = E.decide(c, ("var", W.TARGET, len(W.target_v)))
                if v in ms:
                    continue
                ctx.need(k == ("in", frozenset([W.target_v["Other"]])), "thumb-bit", "the cleared addresses are used", "symbols with thumb bit are used when " + Q.show(c))
    else:
        ctx.need(W.SYMS in ms, "thumb-bit", "the cleared addresses are used", "symbols with thumb bit are used")


# ------------------------------------------------------------------ shown names
def shown_names(ctx, R, W):
    E = R.E
    iname = W.node_f["name"]
    # all writes to a node's name
    from props.propagate import Graphs
    graph = Graphs(ctx, R, W).graph
    stores = [e for e in R.find("store", lambda t, *_: is_s(t, "f") and t[3:] == (0, iname) and is_s(t[2], "at") and graph(t[2][2]))]
    if not stores:
        ctx.ok("shown-name", "names are shown unchanged")
        return
    amb = set()
    for e in stores:
        old, new = e.data[0], e.data[1]
        want = S("f", S("dehash", S("demangle", old)), 1, 0)
        if not ctx.need(new == want, "shown-name", "without its hash", "a shown name is changed to something else: %s" % pp(new)[:150], e.loc):
            continue
        for c in e.pc:
            ms = [t for a, v in c for t in Q.subterms(a[1]) if is_s(t, "at", 2) and t[3] == want]
            good = False
            for t in ms:
                for atom, yes in ((b(S("eq", t, ("i", 1))), YES), (b(S("eq", ("i", 1), t)), YES), (b(S("lt", ("i", 1), t)), NO), (b(S("lt", t, ("i", 2))), YES)):
                    if E.decide(c, atom) == yes:
                        good = True
                        amb.add(t[2])
            for a, v in c:
                # not counted at all
                if a[0] == "var" and is_s(a[1], "get") and a[1][3] == want and v == NO:
                    good = True
                    amb.add(a[1][2])
            ctx.need(good, "shown-name", "only when unambiguous", "the hash is dropped from a name that may be ambiguous when " + Q.show(c), e.loc)
    for m in amb:
        counts(ctx, R, W, m)


def counts(ctx, R, W, m):
    """m counts the functions with the same name without hash, over all nodes of the graph"""
    E = R.E
    nodes = S("raw_nodes", W.G)
    ups = [e for e in R.evs if e.kind in ("store", "entry", "insert", "remove", "clear") and e.data and (e.data[0] == m or is_s(e.data[0], "at") and e.data[0][2] == m)]
    ent = [e for e in ups if e.kind == "entry"]
    good = []
    for e in ups:
        if e.kind == "entry":
            continue
        if e.kind == "store" and is_s(e.data[0], "at"):
            k, new = e.data[0][3], e.data[1]
            known = lambda c: any(x.data[1] == k and x.data[2] == ("i", 0) for x in ent) or E.decide(c, var(S("get", m, k, 0))) == YES or got(c, m, k) == YES
            inc = Q.nf(new) == Q.nf(S("add", e.data[0], ("i", 1))) and all(known(c) for c in e.pc)
        elif e.kind == "insert":
            k, new = e.data[1:3]
            inc = all(new == ("i", 1) if got(c, m, k) == NO else got(c, m, k) == YES and Q.nf(new) == Q.nf(S("add", S("at", m, k), ("i", 1))) for c in e.pc)
        else:
            ctx.violate("count/other", "the count of names is changed in an unknown way: %r" % e, e.loc)
            continue
        name = next((t for t in Q.subterms(k) if is_s(t, "f") and is_s(t[2], "at") and t[2][2] == W.G and is_s(t[2][3], "nodeix")), None)
        want = name is not None and k == S("f", S("dehash", S("demangle", name)), 1, 0)
        if ctx.need(inc and want and len(e.loops) == 1, "count", "one more per function", "names are not counted one by one over the nodes: %s := %s" % (pp(k)[:100], pp(new)[:100]), e.loc):
            good.append((e, name))
    for e, name in good:
        lid = e.loops[-1]
        src = next((s for s in R.counters(lid) if s[:3] == nodes[:3] or is_s(s, "nodeixs") and s[2] == W.G), None)
        p = R.whole(lid, src) if src is not None else None
        if not ctx.need(p is not None and name[2][3][2] == p, "count", "over all nodes", "the count does not run over all nodes of the graph", e.loc):
            continue
        ctx.need(R.unavoidable(lid) is None, "count", "always done", "the count can be bypassed: %s" % R.unavoidable(lid), e.loc)
        F = frozenset([(var(S("dehash", S("demangle", name))), YES)])
        for pc in R.backs(lid):
            r = Q.cover(E, pc, [x.pc for x, n in good if x.loops == e.loops], F)
            ctx.need(r is None, "count", "each node with a hash", "a function is not counted when " + (Q.show(r) if r else ""), e.loc)
        for pc in R.exits(lid):
            bad = [c for c in pc if not R.ended(c, src, p)]
            ctx.need(not bad, "count", "to the last node", "functions are not counted when " + (Q.show(bad[0]) if bad else ""), e.loc)
        late = [x for x in R.find("add_node", lambda g, *_: g == W.G) if x.last > e.seq]
        late = [x for x in late if x.seq > e.seq]
        ctx.need(not late, "count", "after the last node is added", "a function is added after the names are counted: %s" % (late[0] if late else ""), e.loc)
    ctx.need(bool(good), "count", "is kept", "the number of functions per name is not counted")


def got(c, m, k):
    for a, v in c:
        t = a[1][2] if is_s(a[1], "old") else a[1]
        if a[0] == "var" and is_s(t, "get") and t[2] == m and t[3] == k:
            return v
    return None


# ------------------------------------------------------------------ names made by the outliner
def outlined_fn(ctx):
    """functions produced by the outliner are those called OUTLINED_FUNCTION_ and a number"""
    E = ctx.engine()
    P = "OUTLINED_FUNCTION_"
    yes = 0

    def shape(t):
        """1: the name has the prefix; 2: the text behind it"""
        return is_s(t, "pre") and t[3] == P and not isinstance(t[2], int)

    def number(a):
        return any((is_s(t, "radix") and t[2] in ("u64", "u32", "usize", "u128") and t[4] in (10, ("i", 10)) or is_s(t, "parse")) and any(is_s(x, "sub") and x[3] == ("i", len(P)) for x in Q.subterms(t)) for t in Q.subterms(a))
    for st, v in E.run(ctx.body("is_outlined_function")):
        v = E.deep(st, v)
        for c in st.pc:
            pre = [w for a, w in c if a[0] == "b" and shape(a[1])]
            num = [w for a, w in c if a[0] == "var" and number(a[1])]
            if v == ("i", 1):
                yes += 1
                ctx.need(YES in pre and NO in num, "outlined", "only names made by the outliner", "a function is taken for an outlined one when " + Q.show(c)[:300], key="outlined/other names")
            elif v == ("i", 0):
                ctx.need(NO in pre or YES in num, "outlined", "every name made by the outliner", "an outlined function is not recognised when " + Q.show(c)[:300], key="outlined/missed")
            else:
                ok = v[0] == "S" and YES in pre and v[1] in ("isok", "not") and number(v)
                yes += bool(ok)
                ctx.need(ok, "outlined", "decided", "whether a function was produced by the outliner depends on %s" % pp(v)[:200], key="outlined/shape")
    ctx.need(yes, "outlined", "outlined functions exist", "no name is taken for one made by the outliner")


def no_hash(E, c):
    """the name does not end in `::h` and 16 hexadecimal digits with something before it"""
    def n19(x, k):
        return is_s(x, "sub") and Q.nf(x[3]) == Q.nf(S("add", S("len", x[2]), ("i", -k)))
    for a, v in c:
        if a[0] != "b":
            continue
        t = a[1]
        if t[1] == "eq" and v == YES and any(x[0] == "i" and (Q.nf(y) == Q.nf(S("add", S("len", z[2]), ("i", -19 + x[1]))) or y == z and x[1] <= 19)
                                             for x, y in ((t[2], t[3]), (t[3], t[2])) for z in Q.subterms(y) if is_s(z, "len")):
            return True
        if t[1] == "lt" and v == NO and t[2][0] == "i" and t[2][1] <= 19 and is_s(t[3], "len"):
            return True
        if t[1] == "lt" and v == YES and t[3][0] == "i" and t[3][1] <= 20 and is_s(t[2], "len"):
            return True
        if t[1] == "inrange" and v == NO and Q.nf(t[3]) == Q.nf(S("add", S("len", t[2]), ("i", -19))):
            return True
        if t[1] == "pre" and v == NO and n19(t[2], 19) and "::h".startswith(t[3] if isinstance(t[3], str) else t[3][1]):
            return True
        if t[1] == "call" and v == NO and "hexdigit" in str(t[2]) and is_s(t[3], "elem") and n19(t[3][2], 16):
            return True
    return False


# ------------------------------------------------------------------ removal of the hash
def dehash_fn(ctx):
    E = ctx.engine()
    key = ctx.body("dehash")
    outs = E.run(key)
    for st, v in outs:
        v = E.deep(st, v)
        if not (v[0] == "A" and v[2] in (0, 1)):
            ctx.violate("dehash/shape", "dehash returns something unknown: " + pp(v)[:100])
            continue
        ctx.need(True, "dehash", "path")
        if v[2] == 0:
            for c in st.pc:
                ctx.need(no_hash(E, c), "dehash", "a hash is recognised", "the hash at the end of a name is not recognised when " + Q.show(c)[:300], key="dehash/missed")
            continue
        r = v[3][0]
        # text without its last 19 bytes, the removed text being `::h` and hexadecimal digits
        good = is_s(r, "sub") and r[3] == ("i", 0) and Q.nf(r[4]) == Q.nf(S("add", S("len", r[2]), ("i", -19)))
        digits = False
        for c in st.pc:
            for a, w in c:
                if a[0] == "b" and a[1][1] == "more" and w == NO and is_s(a[1][3], "phi"):
                    lid = a[1][3][2]
                    bk = [d for l in E.loops.get(lid, []) for s2 in l["backs"] for d in s2.pc]
                    digits = digits or bool(bk) and all(any(x[0] == "b" and is_s(x[1], "call") and "hexdigit" in str(x[1][2]) and y == YES for x, y in d) for d in bk)
        mid = any(a[0] == "b" and a[1][1] == "inrange" and w == NO for c in st.pc for a, w in c)
        good = good and not mid
        lits = {a[1][3] for c in st.pc for a, w in c if a[0] == "b" and a[1][1] == "pre" and w == YES}
        ctx.need(good and digits and "::h" in lits, "dehash", "removes `::h` and the hash", "a name is cut without a hash at its end: %s when %s" % (pp(r)[:100], Q.show(next(iter(st.pc)))[:300]))
