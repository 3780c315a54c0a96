"""Edges of the call graph that come from the intermediate code."""
from engine import S, pp, Incomplete
import q as Q
from q import b, var
from run import Run, Roles, fidx, vidx, is_s, is_m, one, intact

YES = ("in", frozenset([1]))
NO = ("in", frozenset([0]))

# intrinsics that never become a call, or (where noted by the tool) are assumed to lower to machine code
SILENT = ["llvm.dbg.value", "llvm.dbg.declare", "llvm.assume", "llvm.trap", "llvm.experimental.noalias.scope.decl", "llvm.x86.sse2.pause"]
SILENT_PRE = ["llvm.lifetime.start", "llvm.lifetime.end", "llvm.abs.", "llvm.bswap.", "llvm.ctlz.", "llvm.cttz.", "llvm.sadd.with.overflow.",
              "llvm.smul.with.overflow.", "llvm.ssub.with.overflow.", "llvm.uadd.sat.", "llvm.uadd.with.overflow.", "llvm.umax.", "llvm.umin.",
              "llvm.umul.with.overflow.", "llvm.usub.sat.", "llvm.usub.with.overflow.", "llvm.vector.reduce.", "llvm.x86.sse2.pmovmskb.",
              # these do not produce code either
              "llvm.dbg.", "llvm.experimental.noalias.scope.decl", "llvm.invariant.", "llvm.launder.", "llvm.strip.invariant", "llvm.sideeffect",
              "llvm.donothing", "llvm.smax.", "llvm.smin.", "llvm.sadd.sat.", "llvm.ssub.sat.", "llvm.fshl.", "llvm.fshr.", "llvm.bitreverse.",
              "llvm.ctpop.", "llvm.expect.", "llvm.ubsantrap", "llvm.debugtrap", "llvm.prefetch", "llvm.frameaddress", "llvm.returnaddress",
              "llvm.read_register", "llvm.write_register", "llvm.is.constant", "llvm.objectsize", "llvm.annotation", "llvm.var.annotation",
              "llvm.ptr.annotation", "llvm.stacksave", "llvm.stackrestore", "llvm.threadlocal.address", "llvm.fabs.", "llvm.copysign.", "llvm.arm.", "llvm.x86."]
COPY = ["memcpy", "__aeabi_memcpy", "__aeabi_memcpy4", "__aeabi_memcpy8"]
MOVE = ["memmove", "__aeabi_memmove", "__aeabi_memmove4", "__aeabi_memmove8"]
SET = ["memset", "__aeabi_memset", "__aeabi_memset4", "__aeabi_memset8", "memclr", "__aeabi_memclr", "__aeabi_memclr4", "__aeabi_memclr8"]
MEM = [("llvm.memcpy.", COPY), ("llvm.memmove.", MOVE), ("llvm.memset.", SET)]


class DefLoop:
    """the loop over the definitions and the loop over their statements"""

    def __init__(self, W):
        R = W.R
        self.W, self.R, self.E = W, R, W.E
        fst = fidx(W.ctx, "ir::define::Define", "stmts")
        fname = fidx(W.ctx, "ir::define::Define", "name")
        cand = set()
        for e in R.evs:
            for i in range(1, len(e.loops)):
                o, n = e.loops[i - 1], e.loops[i]
                for src in R.counters(o):
                    if is_s(src, "kv") and src[2] == W.DEFINES:
                        for s2 in R.counters(n):
                            if is_s(s2, "f") and s2[4] == fst and is_s(s2[2], "at") and s2[2][2] == W.DEFINES:
                                cand.add((o, src, n, s2))
        self.outer, self.osrc, self.inner, self.isrc = one(sorted(cand, key=repr), "loop over the statements of the definitions")
        self.op = R.whole(self.outer, self.osrc)
        self.ip = R.whole(self.inner, self.isrc)
        if self.op is None or self.ip is None:
            raise Incomplete("the definitions or their statements are not visited one after the other")
        self.define = S("at", W.DEFINES, S("key", W.DEFINES, self.op))
        self.name = S("f", self.define, 0, fname)
        self.canon = S("at", W.ALIASES, self.name)
        self.caller = S("at", W.INDICES, self.canon)
        self.stmt = S("elem", self.isrc, self.ip)
        self.kind = ("var", self.stmt, W.nstmt)
        self.heads = self.E.loops[self.inner][0]["head"]
        self.ohead = self.E.loops[self.outer][0]["head"]

    def payload(self, k):
        return S("f", self.stmt, self.W.stmt_v[k], 0)

    def get(self, m, k):
        return var(S("get", m, k, self.heads.ver.get(m, 0)))

    def oget(self, m, k):
        return var(S("get", m, k, self.ohead.ver.get(m, 0)))


def undef_set(W):
    """the set of undefined symbols the statements' callees are looked up in"""
    c = {a[1][2] for e in W.R.evs if e.kind in ("add_edge", "add_node", "panic") for x in e.pc for a, v in x if a[0] == "b" and a[1][1] == "has" and len(a[1]) == 5}
    return {m for m in c if W.is_undef(m)}


def walk_complete(ctx, W, D, rule="walk"):
    """every surviving definition is visited and every statement of it"""
    R, E = W.R, W.E
    ctx.need(R.unavoidable(D.outer) is None, rule, "definitions", "the loop over the definitions can be bypassed: %s" % R.unavoidable(D.outer))
    # leaving the loop over the definitions only when they are exhausted
    for pc in R.exits(D.outer):
        bad = [c for c in pc if not R.ended(c, D.osrc, D.op)]
        ctx.need(not bad, rule, "all definitions", "the loop over the definitions ends before all of them are visited, when " + (Q.show(bad[0]) if bad else ""))
    gone = D.oget(W.ALIASES, D.name)
    bad = None
    for pc in R.backs(D.outer):
        for c in pc:
            k = E.decide(c, gone)
            if k == ("in", frozenset([0])):
                continue
            if not R.ended(c, D.isrc, D.ip):
                bad = c
    ctx.need(bad is None, rule, "statements", "a surviving definition's statements are not all visited when " + (Q.show(bad) if bad else ""))


def resolve(D, q, name, undef):
    """node of the symbol `name` under the facts asked through q"""
    W = D.W
    if q(D.get(W.ALIASES, name)):
        return ("node", S("at", W.INDICES, S("at", W.ALIASES, name)))
    u = any([q(b(S("has", m, name, D.heads.ver.get(m, 0)))) for m in undef])
    if q(D.get(W.INDICES, name)):
        return ("node", S("at", W.INDICES, name)) if u else ("opt", S("at", W.INDICES, name))
    return ("new", name) if u else ("absent", name)


def seen_family(W):
    """sets of callees already connected, per caller; every member must have its edge"""
    R = W.R
    edges = {(x.data[1], x.data[2]) for x in R.find("add_edge") if x.data[0] == W.G}
    return {e.data[0][2] for e in R.find("sins") if is_s(e.data[0], "at") and is_m(e.data[0][2]) and (e.data[0][3], e.data[1]) in edges}


def about(a, fam, K, X):
    """the fact says whether X is already connected to K"""
    return a[0] == "b" and a[1][1] == "has" and is_s(a[1][2], "at") and a[1][2][2] in fam and a[1][2][3] == K and a[1][3] == X


def unseen(W, pc, fam, K, X):
    """the path condition without `X is not connected yet` (had it been, the edge would be there) and without
    `a canonical name has a node` (invariant of the creation of the nodes)"""
    return frozenset(frozenset((a, v) for a, v in c if not (about(a, fam, K, X) and (v == NO or isinstance(a[1][4], tuple) and a[1][4][0] == "site"))
                               and not (v == YES and is_s(a[1], "get") and a[1][2] == W.INDICES and is_s(a[1][3], "at") and a[1][3][2] == W.ALIASES)) for c in pc)


def check_seen(ctx, W, fam, rule="seen-set"):
    R, E = W.R, W.E
    edges = R.find("add_edge", lambda g, *_: g == W.G)
    for e in R.find("sins"):
        m = e.data[0]
        if is_s(m, "at") and m[2] in fam:
            K, X = m[3], e.data[1]
            r = Q.cover(E, e.pc, [unseen(W, x.pc, fam, K, X) for x in edges if x.data[1] == K and x.data[2] == X and x.loops == e.loops])
            ctx.need(r is None, rule, "member without edge at %s" % e.loc.split(":")[0],
                     "a callee is noted as connected but no edge to it is added when " + (Q.show(r) if r else ""), e.loc,
                     key="%s/%s" % (rule, pp(X)[:60]))


def check_once(ctx, W, fam, e, fresh, rule="one-edge"):
    """the edge is added only when it is not there yet, and noted"""
    R, E = W.R, W.E
    K, X = e.data[1:3]
    if X not in fresh:
        for c in e.pc:
            known = any(about(a, fam, K, X) and v == NO for a, v in c)
            ctx.need(known, rule, "callee not connected before", "a second edge to the same callee may be added: %s when %s" % (pp(X)[:100], Q.show(c)), e.loc)
    r = Q.cover(E, e.pc, [unseen(W, x.pc, fam, K, X) for x in R.find("sins") if is_s(x.data[0], "at") and x.data[0][2] in fam and x.data[0][3] == K and x.data[1] == X and x.loops == e.loops])
    ctx.need(r is None, rule, "callee noted as connected", "an edge is added but not noted, a later call adds it again: " + (Q.show(r) if r else ""), e.loc)


def fresh_nodes(W, loop):
    """{newnode term: (fields, event)} created in the loop"""
    return {e.data[2]: (W.node_fields(e.data[1]), e) for e in W.R.find("add_node", lambda g, *_: g == W.G) if loop in e.loops}


def direct_calls(ctx):
    R = Run(ctx)
    W = Roles(R)
    intact(ctx, R, W)
    W.setup_maps()
    D = DefLoop(W)
    E = R.E
    walk_complete(ctx, W, D)
    backs = R.backs(D.inner)
    fam = seen_family(W)
    undef = undef_set(W)
    check_seen(ctx, W, fam)
    edges = [e for e in R.find("add_edge", lambda g, *_: g == W.G) if D.inner in e.loops]
    fresh = fresh_nodes(W, D.inner)
    base = frozenset([(D.kind, ("in", frozenset([W.stmt_v["DirectCall"]])))])
    func = D.payload("DirectCall")
    pre = lambda s: b(S("pre", func, s))

    def hits(F, T, want):
        """node T is what is wanted"""
        if want[0] in ("new", "absent"):
            return T in fresh and fresh[T][0] is not None and Q.same(E, F, fresh[T][0]["name"], want[1])
        return Q.same(E, F, T, want[1])

    def require(rule, what, F, want):
        covers = [unseen(W, e.pc, fam, D.caller, e.data[2]) for e in edges if e.data[1] == D.caller and hits(F, e.data[2], want)]
        r = next((x for x in (Q.cover(E, pc, covers, F) for pc in backs) if x is not None), None)
        ctx.need(r is None, rule, what, "no edge to %s is added when %s" % ("a new node" if want[0] == "new" else pp(want[1])[:80], Q.show(r) if r else ""), None, key="%s/%s" % (rule, what))

    KIND = {"new": "an external symbol", "opt": "a known symbol", "node": "a symbol with a node"}

    # ---- named functions
    def spec_call(q):
        if q(pre("llvm.")):
            return None
        w = resolve(D, q, func, undef)
        if w[0] in ("absent", "opt") and q(b(S("seq", func, "memcmp"))):
            return ("maybe", w)
        return w
    bsym_o = D.payload("BitcastCall")
    bsym = S("f", bsym_o, 1, 0)
    bbase = frozenset([(D.kind, ("in", frozenset([W.stmt_v["BitcastCall"]]))), (var(bsym_o), YES)])

    def spec_cast(q):
        w = resolve(D, q, bsym, undef)
        return ("node", w[1]) if w[0] == "opt" else ("new", w[1]) if w[0] == "absent" else w
    for kind, spec, bs in (("call", spec_call, base), ("cast call", spec_cast, bbase)):
        for F, w in Q.Spec(E, bs).leaves(spec):
            if w is not None and w[0] in ("node", "new", "opt"):
                require("named-call", "%s of %s" % (kind, KIND[w[0]]), F, w)

    # ---- memory intrinsics
    for prefix, routines in MEM:
        for n in routines:
            def spec(q):
                if not q(pre(prefix)) or W.thumb(q):
                    return None
                return resolve(D, q, ("s", n), undef)
            for F, w in Q.Spec(E, base).leaves(spec):
                if w is not None and w[0] == "node" and is_s(w[1][3], "at"):
                    require("memory-intrinsic", "%s* to %s" % (prefix, n), F, w)

    # ---- other intrinsics: no call, or the analysis stops
    def other(q):
        if not q(pre("llvm.")) or W.thumb(q):
            return False
        return not any(q(pre(p)) for p, _ in MEM) and not any(q(pre(p)) for p in SILENT_PRE) and not any(q(b(S("seq", func, s))) for s in SILENT)
    for F, r in Q.Spec(E, base).leaves(other):
        if r:
            hit = [c for pc in backs for c in Q.meets(E, pc, F)]
            ctx.need(not hit, "unknown-intrinsic", "stops the analysis", "an intrinsic that may become a call is skipped: " + (Q.show(hit[0]) if hit else ""))

    # ---- no other edges, and at most one per pair
    for e in edges:
        where = e.loc
        if e.data[1] != D.caller:
            ctx.violate("caller/%s" % pp(e.data[1])[:60], "an edge starts at a node that is not the calling function's: %s" % pp(e.data)[:200], where)
            continue
        T = e.data[2]
        for c in e.pc:
            k = E.decide(c, D.kind)
            ks = k[1] if k and k[0] == "in" else ()
            kk = next(iter(ks)) if len(ks) == 1 else None
            if kk == W.stmt_v["DirectCall"]:
                ok = True
                for F, w in Q.Spec(E, c).leaves(spec_call):
                    if w is None:
                        hit = False
                        for p, rs in MEM:
                            if E.decide(F, pre(p)) == YES:
                                for n in rs:
                                    n = ("s", n)
                                    hit = hit or any(hits(F, T, x) for x in (("node", S("at", W.INDICES, n)), ("node", S("at", W.INDICES, S("at", W.ALIASES, n))), ("new", n)))
                        ok = ok and hit
                    else:
                        ok = ok and hits(F, T, w[1] if w[0] == "maybe" else w)
                ctx.need(ok, "edge-target", "direct call", "an edge to the wrong node is added: %s when %s" % (pp(T)[:120], Q.show(c)), where)
            elif kk == W.stmt_v["BitcastCall"]:
                ok = all(hits(F, T, w) for F, w in Q.Spec(E, c).leaves(spec_cast))
                ctx.need(ok, "edge-target", "cast call", "an edge to the wrong node is added: %s when %s" % (pp(T)[:120], Q.show(c)), where)
            else:
                ctx.violate("edge-without-call", "an edge is added for a statement that is no direct call: " + Q.show(c), where)
        check_once(ctx, W, fam, e, fresh)
    # ---- new nodes
    for t, (f, e) in fresh.items():
        sym = f["name"] if f else None
        ctx.need(f and f["local"] == ("A", "Local", W.local_v["Unknown"], ()), "external-node", "of unknown usage", "the node of an external symbol does not have unknown usage: %s" % pp(e.data)[:200], e.loc)
        r = Q.cover(E, e.pc, [x.pc for x in R.find("insert") if x.data[0] == W.INDICES and x.data[1] == sym and x.data[2] == t])
        ctx.need(r is None, "external-node", "registered under its name", "a node of an external symbol is not registered, later calls create it again: " + (Q.show(r) if r else ""), e.loc)
        for m, what in ((W.INDICES, "without a node"), (W.ALIASES, "not defined in the program")):
            bad = [c for c in e.pc if not any(a[0] == "var" and a[1][:4] == S("get", m, sym) and v == NO for a, v in c)]
            ctx.need(not bad, "external-node", what, "a node for a symbol that already has one is added: " + (Q.show(bad[0]) if bad else ""), e.loc)
