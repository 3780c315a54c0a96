"""Indirect calls: registration of functions under their signature, marking of called signatures, function-pointer nodes."""
from engine import S, pp, Incomplete
import q as Q
from q import b, var
from run import Run, Roles, fidx, vidx, is_s, is_m, one, intact
from props.edges import YES, NO, DefLoop
from props.nodes import Names, facts_on, rename, strip, outlined_fn


def exhausted(R, N, c, F):
    """the facts say that no name of the symbol satisfies F (facts on "X")"""
    E = R.E
    F = frozenset((strip(a), v) for a, v in F)
    for a, v in c:
        if a[0] != "b" or a[1][1] != "more" or v != NO:
            continue
        src, p = a[1][2], a[1][3]
        if is_s(src, "staged") and p == ("i", 0) and whole_set(R, N, src[2]):
            acc = acceptance(R, N, src)
            if acc and Q.cover(E, frozenset([F]), [acc]) is None:
                return True
        if is_s(p, "phi") and p[2] != N.L and whole_set(R, N, src):
            lid = p[2]
            if src not in R.counters(lid) or R.whole(lid, src) is None:
                continue
            rej = set()
            for pc in R.backs(lid):
                for d in pc:
                    xs = {t for a2, _ in d for t in Q.subterms(a2[1]) if N.member(t) and Q.contains(t, lambda y: y == p)}
                    for X in xs or [None]:
                        rej.add(rename(frozenset((strip(f), w) for f, w in (facts_on(E, d, X) if X else ())), X, "X") if X else frozenset())
            if rej and not any(Q.merge(E, r, F) is not None for r in rej):
                return True
    return False


def whole_set(R, N, src):
    if src == N.names:
        return True
    if is_s(src, "staged"):
        return src[2] == N.names
    return is_m(src) and bool(R.find("push", lambda m, *_: m == src))


def acceptance(R, N, staged):
    """facts on a name under which the filter lets it pass; facts about what the filter of the names themselves asks are left out"""
    E = R.E
    acc = set()
    for e in R.evs:
        if N.L not in e.loops:
            continue
        for c in e.pc:
            for a, v in c:
                if a[0] == "b" and a[1][1] == "more" and a[1][2] == staged and v == YES:
                    k = a[1][3]
                    xs = {t for a2, _ in c for t in Q.subterms(a2[1]) if N.member(t) and Q.contains(t[3], lambda y: is_s(y, "acc") and y[2] == staged[3] and y[3] == k)}
                    for X in xs:
                        acc.add(frozenset((f, w) for f, w in rename(frozenset((strip(f), w) for f, w in facts_on(E, c, X)), X, "X")
                                          if f[1][1] not in ("seq", "pre", "more") or not (len(f[1]) > 2 and f[1][2] == "X") and f[1][1] != "more"))
    # a fact that may be asked after the name was accepted splits the set into complementary parts
    return acc


class Indirects:
    def __init__(self, ctx, W):
        self.W, R, E = W, W.R, W.E
        self.R = R
        self.fcallers = fidx(ctx, "Indirect", "callers")
        self.fcallees = fidx(ctx, "Indirect", "callees")
        try:
            self.fcalled = fidx(ctx, "Indirect", "called")
        except Incomplete:
            self.fcalled = None
        self.isig = fidx(ctx, "ir::define::Define", "sig")
        self.dsig = fidx(ctx, "ir::item::Declare", "sig")
        regs = [e for e in R.find("sins") if W.symloop in e.loops and self.is_field(e.data[0], self.fcallees)]
        self.IND = one([e.data[0][2][2] for e in regs], "map of signatures")
        self.regs = [e for e in regs if e.data[0][2][2] == self.IND]

    def is_field(self, t, f):
        return is_s(t, "f") and t[3:] == (0, f) and is_s(t[2], "at") and is_m(t[2][2])

    def field(self, key, f):
        return S("f", S("at", self.IND, key), 0, f)

    def loops_over(self):
        """loops over the map of signatures -> {loop: (source, position, key of the visited signature)}"""
        r = {}
        for lid in self.R.E.loops:
            for src in self.R.counters(lid):
                base = src[2] if is_s(src, "staged") else src
                if is_s(base, "kv") and base[2] == self.IND:
                    p = self.R.whole(lid, src)
                    r[lid] = (src, p, None if p is None else S("key", self.IND, S("acc", src[3], p) if is_s(src, "staged") else p))
        return r

    def visited(self, lid, src, key):
        """conditions on a signature under which the loop visits it"""
        if not is_s(src, "staged"):
            return [frozenset()]
        R = self.R
        cs = [c for pc in R.backs(lid) for c in pc] + [c for e in R.evs if lid in e.loops for c in e.pc]
        return list({frozenset((a, v) for a, v in facts_on(R.E, c, key) if not (a[0] == "b" and a[1][1] == "more")) for c in cs})


def all_visited(ctx, R, lid, src, p, rule, what):
    ctx.need(p is not None, rule, what + " in turn", "%s are not visited one after the other" % what)
    if p is None:
        return
    for pc in R.exits(lid):
        bad = [c for c in pc if not R.ended(c, src, p)]
        ctx.need(not bad, rule, "all " + what, "not all %s are visited: the loop ends early when %s" % (what, Q.show(bad[0]) if bad else ""))


def indirect_calls(ctx):
    outlined_fn(ctx)
    R = Run(ctx)
    W = Roles(R)
    intact(ctx, R, W)
    W.setup_maps()
    E = R.E
    N = Names(W)
    I = Indirects(ctx, W)
    D = DefLoop(W)
    registration(ctx, R, W, N, I)
    marking(ctx, R, W, D, I)
    pointer_nodes(ctx, R, W, N, I)


# ------------------------------------------------------------------ registration
def registration(ctx, R, W, N, I):
    E, L = R.E, W.symloop
    ddef = lambda x: var(S("get", W.DEFINES, x, 0))
    ddec = lambda x: var(S("get", W.DECLARES, x, 0))
    decsig = lambda x: S("f", S("at", W.DECLARES, x), 0, I.dsig)
    nodes = {e.data[2]: e for e in R.find("add_node", lambda g, *_: g == W.G) if L in e.loops}
    good = []
    for e in I.regs:
        sig = e.data[0][2][3]
        ok = e.data[1] in nodes
        x = next((t for t in Q.subterms(sig) if N.member(t)), None)
        for c in e.pc:
            sc = {strip(a): v for a, v in c}
            if x is not None and sig == S("f", S("at", W.DEFINES, x), 0, I.isig):
                ok = ok and sc.get(ddef(x)) == YES
            elif x is not None and sig == S("f", decsig(x), 1, 0):
                ok = ok and sc.get(ddec(x)) == YES
            else:
                ok = False
        if ctx.need(ok, "registration", "under the function's signature", "a function is registered under another signature, or another function: %s in %s" % (pp(e.data[1])[:80], pp(sig)[:120]), e.loc):
            good.append(e)
    no_def = frozenset([(ddef("X"), YES)])
    no_dec = frozenset([(ddec("X"), YES), (var(decsig("X")), YES)])
    untyped = flags(R, L)
    und = set()
    for l in E.loops.get(L, []):
        for st in l["backs"]:
            for c in st.pc:
                r = Q.uncovered(E, c, [present(I, d) for e in good for d in e.pc])
                if r is None:
                    ctx.ok("registration", "a typed function is registered")
                    continue
                typeless = exhausted(R, N, c, no_def) and exhausted(R, N, c, no_dec)
                ctx.need(typeless, "registration", "every typed function", "a function with type information is not registered when " + Q.show(c))
                outl = [a for a, v in c if a[0] == "b" and a[1][1] == "is_outlined_function" and v == YES]
                if not typeless or outl:
                    continue
                # the flag is set
                hit = {f for f, cs in untyped.items() if any(Q.meets(E, x, c) for x in cs)}
                und.add(frozenset(hit))
    I.untyped = set.intersection(*[set(x) for x in und]) if und else set()
    ctx.need(bool(und) and bool(I.untyped), "registration", "an untyped function is noted", "it is not noted that a function without type information exists")
    for f in I.untyped:
        # never unset
        for pc, v in E.phis[f]["back"]:
            ctx.need(v in (f, ("i", 1)), "registration", "the note is kept", "the note that an untyped function exists is lost")
    # functions with the signature of a formatter
    I.FMTS = {e.data[0] for e in R.find("sins") if L in e.loops and is_m(e.data[0]) and e.data[1] in nodes}
    if not I.FMTS:
        ctx.ok("formatters", "no set of their own")
    for M in I.FMTS:
        fm = [e for e in R.find("sins", lambda m, *_: m == M) if L in e.loops]
        for e in good:
            sig = e.data[0][2][3]
            if not (is_s(sig[2], "at") and sig[2][2] == W.DEFINES):
                continue
            F = fmt_facts(ctx, R.E, sig)
            if F is None:
                continue
            r = Q.cover(E, e.pc, [x.pc for x in fm if x.data[1] == e.data[1]], F)
            ctx.need(r is None, "formatters", "every function with this signature", "a function with the formatter signature is no formatter when " + (Q.show(r) if r else ""), e.loc)


def present(I, d):
    """without the fact that the signature has an entry (it is added first)"""
    return frozenset((a, v) for a, v in d if not (is_s(a[1], "get") and a[1][2] == I.IND and v == YES))


def fmt_facts(ctx, E, sig, receiver=None):
    """facts that make the signature `i1 (*_, *core::fmt::Formatter)`"""
    T = "ir::ty::Type"
    n = len(ctx.j["adts"][T]["variants"])
    P, A, In = (vidx(ctx, T, v) for v in ("Pointer", "Alias", "Integer"))
    ins = S("f", sig, 0, fidx(ctx, "ir::FnSig", "inputs"))
    out = S("f", sig, 0, fidx(ctx, "ir::FnSig", "output"))
    a0, a1 = S("elem", ins, ("i", 0)), S("elem", ins, ("i", 1))
    al = S("f", a1, P, 0)
    o = S("f", out, 1, 0)
    is_ = lambda x, v: (var(x, n), ("in", frozenset([v])))
    return frozenset([(b(E.eq(S("len", ins), ("i", 2))), YES), is_(a0, P), is_(a1, P), is_(al, A), (b(S("seq", S("f", al, A, 0), "core::fmt::Formatter")), YES),
                      (var(out), YES), is_(o, In), (b(E.eq(S("f", o, In, 0), ("i", 1))), YES)])


def flags(R, L):
    """{flag variable of the loop: path conditions under which it is set}"""
    r = {}
    for p, ent in R.E.phis.items():
        if p[2] == L and ent["init"] and all(v == ("i", 0) for _, v in ent["init"]) and {v for _, v in ent["back"]} == {("i", 1), p}:
            r[p] = [pc for pc, v in ent["back"] if v == ("i", 1)]
    return r


# ------------------------------------------------------------------ marking
def marking(ctx, R, W, D, I):
    E = R.E
    sig = D.payload("IndirectCall")
    F = frozenset([(D.kind, ("in", frozenset([W.stmt_v["IndirectCall"]])))])
    loops = {lid: x for lid, x in I.loops_over().items() if any(D.inner in e.loops and lid in e.loops for e in R.evs)}
    if not ctx.need(bool(loops), "marking", "signatures are visited", "an indirect call does not look at the registered signatures"):
        return
    marked = False
    for lid, (src, p, key) in loops.items():
        all_visited(ctx, R, lid, src, p, "marking", "signatures")
        if p is None:
            continue
        for pc in R.backs(D.inner):
            bad = [c for c in Q.meets(E, pc, F) if not R.ended(c, src, p)]
            ctx.need(not bad, "marking", "for every indirect call", "an indirect call does not mark the signatures when " + (Q.show(bad[0]) if bad else ""))
        comp = b(S("loosely", *sorted((sig, key), key=repr)))
        FC = frozenset([(comp, YES)])
        r = Q.cover(E, frozenset([FC]), [I.visited(lid, src, key)])
        ctx.need(r is None, "marking", "every compatible signature", "a compatible signature is passed over when " + (Q.show(r) if r else ""))
        calls = [e for e in R.find("sins") if lid in e.loops and e.data[0] == I.field(key, I.fcallers)]
        for pc in R.backs(lid):
            r = Q.cover(E, pc, [e.pc for e in calls if e.data[1] == D.caller], FC)
            ctx.need(r is None, "marking", "caller noted", "the caller is not noted for a compatible signature when " + (Q.show(r) if r else ""))
            if I.fcalled is not None:
                st = [e for e in R.find("store") if lid in e.loops and e.data[0] == I.field(key, I.fcalled) and e.data[1] == ("i", 1)]
                r = Q.cover(E, pc, [e.pc for e in st], FC)
                I.called_ok = r is None
        for e in calls:
            ctx.need(e.data[1] == D.caller, "marking", "the calling function", "another function is noted as the caller: " + pp(e.data[1])[:100], e.loc)
            bad = [c for c in e.pc if E.decide(c, comp) != YES]
            ctx.need(not bad, "marking", "only compatible signatures", "an incompatible signature is marked when " + (Q.show(bad[0]) if bad else ""), e.loc)
        marked = marked or bool(calls)
    ctx.need(marked, "marking", "callers are noted", "indirect calls are not noted")
    # nothing is taken back
    for e in R.evs:
        if e.kind in ("srem", "remove", "clear", "retain") and e.data and (e.data[0] == I.IND or I.is_field(e.data[0], I.fcallers) or I.is_field(e.data[0], I.fcallees)):
            ctx.violate("marking/removed", "a registration or caller is removed: %r" % e, e.loc)
        if e.kind == "store" and I.fcalled is not None and e.data[0][:2] == ("S", "f") and e.data[0][3:] == (0, I.fcalled) and is_s(e.data[0][2], "at") and e.data[0][2][2] == I.IND and e.data[1] != ("i", 1):
            ctx.violate("marking/unset", "a called signature is no longer marked: %r" % e, e.loc)


# ------------------------------------------------------------------ function-pointer nodes
def pointer_nodes(ctx, R, W, N, I):
    E = R.E
    tops = R.toploops()
    cand = []
    for lid, (src, p, key) in I.loops_over().items():
        if any(e.loops and e.loops[0] == lid for e in R.find("add_node", lambda g, *_: g == W.G)):
            cand.append((lid, src, p, key))
    lid, src, p, key = one(cand, "loop that adds the function-pointer nodes")
    all_visited(ctx, R, lid, src, p, "pointer-node", "signatures")
    if p is None:
        return
    ctx.need(R.unavoidable(lid) is None, "pointer-node", "always", "the function-pointer nodes are not always added: %s" % R.unavoidable(lid))
    CALLERS, CALLEES = I.field(key, I.fcallers), I.field(key, I.fcallees)
    called = b(I.field(key, I.fcalled)) if I.fcalled is not None else None
    want = frozenset([(called, YES)]) if called is not None and getattr(I, "called_ok", False) else frozenset([(b(S("more", CALLERS, ("i", 0))), YES)])
    r = Q.cover(E, frozenset([want]), [I.visited(lid, src, key)])
    ctx.need(r is None, "pointer-node", "every called signature", "a called signature is passed over when " + (Q.show(r) if r else ""))
    adds = [e for e in R.find("add_node", lambda g, *_: g == W.G) if lid in e.loops]
    edges = [e for e in R.find("add_edge", lambda g, *_: g == W.G) if lid in e.loops]
    local = lambda e: W.node_fields(e.data[1])["local"] if W.node_fields(e.data[1]) else None
    into = {e.data[2] for e in edges if is_s(e.data[1], "elem", 2) and e.data[1][2] == CALLERS}
    fp = [e for e in adds if e.data[2] in into]
    if not ctx.need(bool(fp), "pointer-node", "with an edge from every caller", "no node for the function pointer with edges from the callers is added"):
        return
    for e in fp:
        f = W.node_fields(e.data[1])
        ctx.need(f is not None and f["local"] == ("A", "Local", W.local_v["Exact"], (("i", 0),)), "pointer-node", "no usage of its own", "a function-pointer node has another usage than zero: " + pp(f and f["local"]), e.loc)
        ctx.need(e.loops == (lid,), "pointer-node", "one per signature", "several nodes are added for one signature", e.loc)
    ext = [e for e in adds if e not in fp]
    for i, e in enumerate(fp):
        for e2 in fp[:i]:
            if e.data[2] != e2.data[2]:
                m = [x for c in e.pc for x in Q.meets(E, e2.pc, c)]
                ctx.need(not m, "pointer-node", "one per signature", "two nodes are added for one signature when " + (Q.show(m[0]) if m else ""), e.loc)

    def ended_loop(c, S_, src_node, dst):
        """the conjunction says that a loop over S_ has ended that adds an edge for each of its elements"""
        for lid2 in {e.loops[-1] for e in edges if e.loops[-1] != lid}:
            for s in R.counters(lid2):
                if s != S_ and not (is_s(s, "kv") and s[2] == S_):
                    continue
                q_ = R.whole(lid2, s)
                if q_ is None or not R.ended(c, s, q_):
                    continue
                el = S("elem", S_, q_)
                mine = [e for e in edges if e.loops[-1] == lid2 and (e.data[1], e.data[2]) == ((el, dst) if src_node is None else (src_node, el))]
                over = [frozenset(d for d in pc if E.decide(d, b(S("more", s, q_))) == YES) for pc in R.backs(lid2)]
                if any(over) and all(Q.cover(E, pc, [e.pc for e in mine]) is None for pc in over) and not any(1 for pc in R.exits(lid2) for d in pc if E.decide(d, b(S('more', s, q_))) == YES):
                    return True
        return False

    def merged(c, M):
        """all callees were put into the set M before"""
        for e in R.find("sins", lambda m, *_: m == M):
            if lid in e.loops and is_s(e.data[1], "elem", 2) and e.data[1][2] == CALLEES:
                l2 = e.loops[-1]
                for s in R.counters(l2):
                    q_ = R.whole(l2, s)
                    if s == CALLEES and q_ is not None and R.ended(c, s, q_) and e.data[1][3] == q_ and all(Q.cover(E, pc, [x.pc for x in R.find("sins", lambda m, *_: m == M) if x.loops == e.loops]) is None for pc in R.backs(l2)):
                        return True
        return False
    fmtcase = 0
    special, plain = [], []
    phis_true = {f for f in I.untyped}
    for pc in R.backs(lid):
        for c in pc:
            mine = [e for e in fp if Q.uncovered(E, c, list(e.pc)) is None]
            if not mine:
                # a signature nobody calls
                skip = called is not None and E.decide(c, called) == NO and getattr(I, "called_ok", False) or E.decide(c, b(S("more", CALLERS, ("i", 0)))) == NO
                ctx.need(skip, "pointer-node", "every called signature", "a called signature gets no node when " + Q.show(c))
                continue
            node = mine[0].data[2]
            ctx.need(ended_loop(c, CALLERS, None, node), "pointer-node", "edges from all callers", "not every caller gets an edge to the function-pointer node when " + Q.show(c))
            direct = ended_loop(c, CALLEES, node, None)
            via = [M for M in I.FMTS if ended_loop(c, M, node, None)]
            ctx.need(direct or any(merged(c, M) for M in via), "pointer-node", "edges to all callees", "not every function registered under the signature gets an edge when " + Q.show(c), key="pointer-node/edges to all callees")
            ff = fmt_facts(ctx, E, key)
            if via:
                fmtcase += 1
                no = [a for a, v in ff if E.decide(c, a) is None or Q.empty(Q.inter(Q.cnorm(a, E.decide(c, a)), Q.cnorm(a, v)))]
                no = [a for a in no if a[0] == "b" and a[1][1] in ("seq",)]
                ctx.need(not no, "pointer-node", "formatters only for formatter calls", "all formatters are callees of another signature when " + Q.show(c))
                special += [(a, a[1]) for a, v in c if a[0] == "b" and a[1][1] in ("eq", "seq") and v == YES and not any(a == x for x, _ in ff) and Q.contains(a[1], lambda t: is_s(t, "elem", 2) and t[2] == S("f", key, 0, fidx(ctx, "ir::FnSig", "inputs")))
                            and Q.contains(a[1], lambda t: is_s(t, "phi"))]
            elif special is not None:
                plain.append((c, ff))
            # untyped
            for f in phis_true:
                c2 = Q.add(E, c, b(f), YES)
                if c2 is None:
                    continue
                good = [e for e in ext if local(e) == ("A", "Local", W.local_v["Unknown"], ()) and Q.uncovered(E, c2, list(e.pc)) is None
                        and any(x.data[1] == node and x.data[2] == e.data[2] and Q.uncovered(E, c2, list(x.pc)) is None for x in edges)]
                ctx.need(bool(good), "pointer-node", "an unknown callee", "a function pointer gets no unknown callee although untyped functions exist, when " + Q.show(c2))
    for a, t in set(special):
        for c, ff in plain:
            ins0 = S("elem", S("f", key, 0, fidx(ctx, "ir::FnSig", "inputs")), ("i", 0))
            PT, PA = vidx(ctx, "ir::ty::Type", "Pointer"), vidx(ctx, "ir::ty::Type", "Alias")
            al0 = (var(S("f", ins0, PT, 0), len(ctx.j["adts"]["ir::ty::Type"]["variants"])), ("in", frozenset([PA])))
            m = Q.merge(E, c, ff + [al0] if isinstance(ff, list) else frozenset(ff) | {al0})
            m = m and Q.add(E, m, a, YES)
            T = next((x[2] for x in Q.subterms(t) if is_s(x, "f") and is_s(x[2], "phi") and x[3:] == (1, 0)), None)
            m = m and (T is None or Q.add(E, m, var(T), YES))
            ctx.need(not m, "pointer-node", "formatter calls reach all formatters", "a call of a formatter through a type-erased receiver does not reach the formatters when " + (Q.show(c)))
    ctx.need(fmtcase or not I.FMTS, "pointer-node", "formatter calls reach all formatters", "a call of a formatter through a type-erased receiver does not reach the formatters")
    # no other edges start at a function-pointer node or end there
    okt = {e.data[2] for e in ext}
    for e in edges:
        x, y = e.data[1:3]
        ok = is_s(x, "elem", 2) and x[2] == CALLERS and y in into or x in into and (y in okt or is_s(y, "elem", 2) and (y[2] == CALLEES or y[2] in I.FMTS))
        ctx.need(ok, "pointer-node", "no other edges", "an edge that is no possible call is added: %s" % pp(e.data)[:160], e.loc)
