"""What the driver does with the analysed machine code: edges (C14) and local stack figures (C15)."""
from engine import S, pp, Incomplete
import q as Q
from q import b, var
from run import Run, Roles, fidx, vidx, is_s, is_m, one, intact
from props.edges import YES, NO, DefLoop, seen_family, unseen, check_seen, check_once, about
from props.nodes import rename, outlined_fn
from props.output import cmp_spec

BL, B, IND, MOD, STACK = range(5)


def walk(t, f, out):
    if isinstance(t, tuple):
        if f(t):
            out.add(t)
        else:
            for x in t:
                walk(x, f, out)


def ans(R, loop):
    out = set()
    seen = set()
    for e in R.evs:
        if loop in e.loops:
            walk(e.data, lambda t: is_s(t, "an"), out)
    for pc in R.backs(loop):
        for c in pc:
            for a, v in c:
                if a not in seen:
                    seen.add(a)
                    walk(a, lambda t: is_s(t, "an"), out)
    return out


class Machine:
    """the loop over the symbols that analyses their machine code"""

    def __init__(self, ctx, W):
        self.ctx, self.W, R, E = ctx, W, W.R, W.E
        self.R, self.E = R, E
        cand = {e.loops[0] for e in R.evs if e.loops and W.sym_src(e.loops[0]) is not None and e.loops[0] != W.symloop
                and any(is_s(t, "an") for d in e.data if isinstance(d, tuple) for t in Q.subterms(d))}
        self.L = L = one(cand, "loop that analyses the machine code of every symbol")
        self.src = next(s for s in R.counters(L) if is_s(s, "kv") and W.is_defined(s[2]))
        self.p = R.whole(L, self.src)
        if self.p is None:
            raise Incomplete("the symbols are not visited one after the other for the analysis of their machine code")
        self.SYMS = self.src[2]
        self.addr = S("key", self.SYMS, self.p)
        self.sym = S("at", self.SYMS, self.addr)
        self.size = S("size", self.sym)
        self.names = S("names", self.sym)
        self.name0 = S("elem", self.names, ("i", 0))
        self.canon = {S("at", W.ALIASES, self.name0), S("at", W.ADDR2NAME, self.addr)}
        self.callers = {S("at", W.INDICES, n) for n in self.canon}
        self.an = ans(R, L)
        if not self.an:
            raise Incomplete("the analysis of machine code is not called")
        self.args = sorted({t[3:] for t in self.an}, key=repr)

    def bounds(self, tg, lazy):
        """what it means that this function's first marker and the next one are those of code, and the length between them"""
        r = self.__dict__.setdefault("_bounds", {}).get((tg, lazy))
        if r is None:
            THUMB = vidx(self.ctx, "thumb::Tag", "Thumb")
            k = S("f", S("bsearch", tg, S("cmp", S("f", S("x"), 0, 0), self.addr)), 0, 0)
            k1 = S("add", *sorted((k, ("i", 1)), key=repr))
            t0, t1 = (lazy_facts(tg, THUMB, i) if lazy[n] else tag_facts(self.R, self.E, tg, THUMB, i) for n, i in enumerate((k, k1)))
            lens = {Q.nf(S("add", x, S("neg", y))) for _, x in t1 for y in [y for _, y in t0] + [self.addr]}
            r = self._bounds[tg, lazy] = k, k1, t0, t1, {b(self.E.eq(l, ("i", 0))) for l in lens}
        return r

    def unsized(self, c):
        """the extent of the function is unknown: its symbol has no size, and no two markers bound it"""
        E = self.E
        if E.decide(c, b(E.eq(self.size, ("i", 0)))) != YES:
            return False
        for tg in {a[3] for a in self.args if len(a) == 4}:
            k, k1, *_ = self.bounds(tg, (False, False))
            k, k1, t0, t1, lens = self.bounds(tg, tuple(mentions(c, S("elem", tg, i)) for i in (k, k1)))
            if any(E.decide(c, l) == YES for l in lens):
                continue
            m = Q.add(E, c, var(k[2]), NO)
            m = m and Q.add(E, m, b(S("more", tg, k1)), YES)
            if m and any(Q.merge(E, m2, f1) for f0, _ in t0 for m2 in [Q.merge(E, m, f0)] if m2 for f1, _ in t1):
                return False
        return True

    def term(self, i, args):
        return S("an", i, *args)

    def thumb_excuse(self, conj):
        """the run's target has no machine code analysis, or the program has no code"""
        k = self.E.decide(conj, var(self.W.TARGET, len(self.W.target_v)))
        if k and k[0] == "in" and k[1] <= {self.W.target_v["Other"]}:
            return True
        for a, v in conj:
            if a[0] == "var" and is_s(a[1], "call") and a[1][2].endswith("find_section_by_name") and a[1][-1] == ("s", ".text") and v == NO:
                return True
        return False


def complete(ctx, M, rule="walk"):
    R = M.R
    w = R.unavoidable(M.L, M.thumb_excuse)
    ctx.need(w is None, rule, "symbols", "the machine code is not analysed on a target that supports it: %s" % w)
    for pc in R.exits(M.L):
        bad = [c for c in pc if not R.ended(c, M.src, M.p)]
        ctx.need(not bad, rule, "all symbols", "the analysis ends before all symbols are visited, when " + (Q.show(bad[0]) if bad else ""))


def tag_facts(R, E, tags, adt_v, k):
    """what is known when element k of the marker list is of this kind -> [conj], its address"""
    out = []
    for e in R.find("push", lambda m, *_: m == tags):
        d = e.data[1]
        if d[0] == "T" and d[1][1][0] == "A" and d[1][1][2] == adt_v:
            p = next((t for t in Q.subterms(d) if is_s(t, "phi")), None)
            ps = {t for t in Q.subterms(d[1][0]) if is_s(t, "phi") and t[2] in e.loops}
            if len(ps) != 1:
                continue
            p = next(iter(ps))
            new = S("ix", e.loops[-1], tags, k)
            for c in e.pc:
                out.append((frozenset((f, v) for f, v in rename(frozenset((f, v) for f, v in c if Q.contains(f[1], lambda t: t == p)), p, new) if f[0] != "b" or f[1][1] != "more"), Q.subst(d[1][0], {p: new})))
    return out


def lazy_facts(tags, adt_v, k):
    """the same for an element that is not looked into"""
    el = S("elem", tags, k)
    return [(frozenset([(var(S("f", el, 0, 1)), ("in", frozenset([adt_v])))]), S("f", el, 0, 0))]


def mentions(c, t):
    return any(Q.contains(a[1], lambda x: x == t) for a, _ in c)


def markers(ctx, M, tags):
    """the list of mapping symbols: every `$d`/`$t` symbol of the symbol table with its address, sorted by address"""
    R, E = M.R, M.E
    DATA, THUMB = vidx(ctx, "thumb::Tag", "Data"), vidx(ctx, "thumb::Tag", "Thumb")
    pushes = R.find("push", lambda m, *_: m == tags)
    if not ctx.need(pushes, "markers", "list of mapping symbols", "the list of mapping symbols is never filled"):
        return
    L = one([e.loops[-1] for e in pushes], "loop that collects the mapping symbols")
    srcs = [s for s in R.counters(L)]
    ok = [s for s in srcs if R.whole(L, s)]
    ctx.need(ok, "markers", "every symbol table entry", "not every symbol table entry is examined for mapping symbols")
    entries = set()
    for e in pushes:
        d = e.data[1]
        v, t = d[1] if d[0] == "T" and len(d[1]) == 2 else (None, None)
        if not ctx.need(v is not None and is_s(v, "call") and v[2].endswith("::value") and t[0] == "A", "markers", "address and kind", "a mapping symbol is recorded as " + pp(d)[:120], e.loc):
            continue
        ent = v[3]
        entries.add(ent)
        for c in e.pc:
            nm = name_of(c, ent)
            want = ctx_kind(E, c, nm)
            ctx.need(want == t[2], "markers", "kind", "a mapping symbol of the wrong kind is recorded when " + Q.show(c), e.loc)
    for ent in entries:
        nms = {n for e in pushes for c in e.pc for n in [name_of(c, ent)] if n}
        for s, kind in (("$d", DATA), ("$t", THUMB)):
            for nm in nms:
                F = frozenset([(b(S("pre", nm, s)), YES)] + ([(var(nm[2]), NO)] if is_s(nm, "f") and is_s(nm[2], "call") else []))
                acc = [frozenset((a, v) for a, v in c if a[0] in ("b", "var") and a[1][1] != "more" and Q.contains(a[1], lambda t: t == nm or t == nm[2])) for e in pushes if e.data[1][1][1][2] == kind for c in e.pc]
                r = Q.cover(E, frozenset([F]), [acc])
                ctx.need(r is None, "markers", s, "a mapping symbol %s... is not recorded when %s" % (s, Q.show(r) if r else ""), key="markers/" + s)
            for pc in R.backs(L):
                for c in pc:
                    nm = name_of(c, ent)
                    if nm is None:
                        # the name is not even looked at
                        nm = next((n for pc2 in R.backs(L) for c2 in pc2 for n in [name_of(c2, ent)] if n), None)
                    c2 = c if nm is None else Q.add(E, c, b(S("pre", nm, s)), YES)
                    ok0 = nm is not None and is_s(nm, "f") and is_s(nm[2], "call")
                    if c2 is not None and ok0:
                        c2 = Q.add(E, c2, var(nm[2]), NO)
                    if c2 is None:
                        continue
                    r = Q.uncovered(E, c2, [d for e in pushes if e.data[1][1][1][2] == kind for d in e.pc])
                    ctx.need(r is None, "markers", s, "a mapping symbol %s is not recorded when %s" % (s, Q.show(r) if r else ""), key="markers/" + s)
    # sorted by address before the first use
    sorts = R.find("sort", lambda m, *_: m == tags)
    ctx.need(sorts, "markers", "sorted", "the mapping symbols are not sorted by address")
    for e in sorts:
        _, kind, ords = e.data
        kind = kind[1] if isinstance(kind, tuple) else kind
        sa, sb = S("f", S("sa"), 0, 0), S("f", S("sb"), 0, 0)
        if kind in ("sort_by", "sort_unstable_by"):
            def spec(q):
                if q(b(E.lt(sa, sb))):
                    return "less"
                return "greater" if q(b(E.lt(sb, sa))) else "equal"
            cmp_spec(ctx, E, ords, spec, {"less", "equal", "greater"}, e.loc)
        else:
            for pc, v in ords:
                ctx.need(v in (sa, sb), "markers", "sort key", "the mapping symbols are sorted by %s" % pp(v), e.loc)
        ctx.need(all(Q.cover(E, pc, [x.pc for x in sorts]) is None for pc in R.before(M.L)), "markers", "sorted on every path", "the mapping symbols reach the analysis unsorted", e.loc)


def name_of(c, ent):
    """the name of the symbol table entry in the facts"""
    for a, v in c:
        for t in Q.subterms(a[1]):
            if is_s(t, "f") and is_s(t[2], "call") and t[2][2].endswith("::get_name") and t[2][3] == ent and t[3:] == (0, 0):
                return t
    return None


def ctx_kind(E, c, nm):
    if nm is None:
        return None
    if E.decide(c, b(S("pre", nm, "$d"))) == YES:
        return 0 if True else None
    if E.decide(c, b(S("pre", nm, "$t"))) == YES:
        return 1
    return None


def arguments(ctx, M):
    """every function is analysed with its own bytes and address, and for the right instruction set"""
    R, E, W = M.R, M.E, M.W
    THUMB = vidx(ctx, "thumb::Tag", "Thumb")
    V7 = W.target_v["Thumbv7m"]
    tags = None
    for args in M.args:
        if not ctx.need(len(args) == 4, "analyzed", "call", "the machine code analysis has %d arguments" % len(args)):
            return None
        text, address, v7, tg = args
        tags = tg
        ctx.need(address == M.addr, "analyzed", "address", "a function is analysed at address %s" % pp(address)[:100])
        good = is_s(text, "sub") and is_section(text[2])
        if not ctx.need(good, "analyzed", "code bytes", "a function's bytes are taken from %s" % pp(text)[:120]):
            continue
        base = S("call", "xmas_elf::sections::SectionHeader::address", section(text[2]))
        off = Q.nf(S("add", M.addr, S("neg", base)))
        ctx.need(Q.nf(text[3]) == off, "analyzed", "first byte", "a function's bytes start at %s" % pp(text[3])[:160])
        length = Q.nf(S("add", text[4], S("neg", off)))
        plain = Q.nf(text[4]) == Q.nf(S("add", M.addr, S("neg", base), M.size))
        zero = b(E.eq(M.size, ("i", 0)))
        mine = {c for pc in R.backs(M.L) for c in pc if any(Q.contains(a[1], lambda t: is_s(t, "an") and t[3:] == args) for a, _ in c)}
        ctx.need(mine, "analyzed", "used", "the result of an analysis is not used")
        k = S("f", S("bsearch", tg, S("cmp", S("f", S("x"), 0, 0), M.addr)), 0, 0)
        k1 = S("add", *sorted((k, ("i", 1)), key=repr))
        t0, t1 = tag_facts(R, E, tg, THUMB, k), tag_facts(R, E, tg, THUMB, k1)
        if plain:
            # without a recorded size the next marker bounds the function
            for c in mine:
                t0, t1 = (lazy_facts(tg, THUMB, i) if mentions(c, S("elem", tg, i)) else tag_facts(R, E, tg, THUMB, i) for i in (k, k1))
                m = Q.add(E, c, zero, YES)
                m = m and Q.add(E, m, var(k[2]), NO)
                m = m and Q.add(E, m, b(S("more", tg, k1)), YES)
                hit = m and any(Q.merge(E, m2, f1) for f0, _ in t0 for m2 in [Q.merge(E, m, f0)] if m2 for f1, _ in t1)
                ctx.need(not hit, "analyzed", "size of a symbol without size", "a function whose symbol has no size is not analysed although the next mapping symbol bounds it, when " + Q.show(c))
        else:
            t0, t1 = t0 + lazy_facts(tg, THUMB, k), t1 + lazy_facts(tg, THUMB, k1)
            ends = {Q.nf(S("add", x, S("neg", base))) for _, x in t1} | {Q.nf(S("add", M.addr, S("neg", base), x, S("neg", y))) for _, x in t1 for _, y in t0}
            ok = Q.nf(text[4]) in ends
            ctx.need(ok, "analyzed", "size", "a function's bytes end at %s" % pp(text[4])[:200])
            bad = [c for c in mine if E.decide(c, zero) != YES]
            ctx.need(not bad, "analyzed", "size", "the recorded size of a function is not used when " + (Q.show(bad[0]) if bad else ""))
        # instruction set
        for c in mine:
            t = E.decide(c, var(W.TARGET, len(W.target_v)))
            t = t[1] if t and t[0] == "in" else frozenset(W.target_v.values())
            t = t - {W.target_v["Other"]}
            if v7[0] == "i":
                ok = t == {V7} if v7[1] else V7 not in t
            else:
                d = E.decide(c, b(v7))
                ok = d == YES and t == {V7} or d == NO and V7 not in t
            ctx.need(ok, "analyzed", "instruction set", "code of a target is analysed for another instruction set when " + Q.show(c))
    return tags


def is_section(t):
    """bytes of the section .text"""
    return is_s(t, "call") and t[2].endswith("SectionHeader::raw_data") and section(t) is not None


def section(t):
    s = t[3] if len(t) > 3 else None
    if is_s(s, "f") and s[3:] == (1, 0) and is_s(s[2], "call") and s[2][2].endswith("find_section_by_name") and s[2][-1] == ("s", ".text"):
        return s
    return None


def machine_edges(ctx):
    R = Run(ctx)
    W = Roles(R)
    intact(ctx, R, W)
    W.setup_maps()
    E = R.E
    D = DefLoop(W)
    M = Machine(ctx, W)
    complete(ctx, M)
    tags = arguments(ctx, M)
    if tags is not None:
        markers(ctx, M, tags)
    fam = seen_family(W)
    check_seen(ctx, W, fam)
    backs = R.backs(M.L)
    edges = [e for e in R.find("add_edge", lambda g, *_: g == W.G) if M.L in e.loops]
    nodes = {e.data[2]: (W.node_fields(e.data[1]), e) for e in R.find("add_node", lambda g, *_: g == W.G) if M.L in e.loops}
    # ---- both lists are walked to their ends
    inner = {}
    for i, what in ((BL, "calls"), (B, "branches")):
        for pc in backs:
            for c in pc:
                if M.unsized(c):
                    continue
                done = [(a[1][2], a[1][3]) for a, v in c if a[0] == "b" and a[1][1] == "more" and v == NO and is_s(under(a[1][2]), "an") and under(a[1][2])[2] == i
                        and (a[1][3] == ("i", 0) or is_s(a[1][3], "phi") and R.whole(a[1][3][2], a[1][2]) == a[1][3])]
                ctx.need(done, what, "all looked at", "not all %s found in a function become edges when %s" % (what, Q.show(c)))
                for s, p in done:
                    if is_s(p, "phi"):
                        inner.setdefault(i, set()).add(p[2])
        ctx.need(inner.get(i), what, "looked at", "no %s found in machine code become edges" % what)
    for i, what in ((BL, "calls"), (B, "branches")):
        for lid in inner.get(i, ()):
            for src in R.counters(lid):
                p = R.whole(lid, src)
                if p is None or not is_s(under(src), "an") or under(src)[2] != i:
                    continue
                args = under(src)[3:]
                X = dest(M, src, p)
                nodeX = S("at", W.INDICES, S("at", W.ADDR2NAME, X))
                start, end = M.addr, Q.nf(S("add", args[0][4], S("call", "xmas_elf::sections::SectionHeader::address", section(args[0][2])))) if is_section(args[0][2]) else None
                end = flat_end(M, args)
                below = b(E.lt(X, start))
                beyond = [b(E.lt(X, e_)) for e_ in end]

                def inside(q):
                    if q(below):
                        return False
                    return q(beyond[0])
                mine = [e for e in edges if lid in e.loops and e.data[2] == nodeX and e.data[1] in M.callers]
                if is_s(src, "staged"):
                    # what the filter lets through
                    el = under_elem(src, p)
                    acc = {frozenset((a, v) for a, v in c if a[0] == "b" and a[1][1] == "lt" and Q.contains(a[1], lambda t: t == el)) for pc in R.backs(lid) for c in pc if E.decide(c, b(S("more", src, p))) == YES}
                    for F, isin in (Q.Spec(E).leaves(inside) if i == B else [(frozenset(), False)]):
                        r = None if isin else Q.cover(E, frozenset([F]), [acc])
                        ctx.need(r is None, what, "edge to the function at the target", "a %s is left out when %s" % ("call" if i == BL else "branch out of the function", Q.show(r) if r else ""), key="%s/missing edge" % what)
                for pc in R.backs(lid):
                    pc = frozenset(c for c in pc if E.decide(c, b(S("more", src, p))) == YES)
                    if not pc:
                        continue
                    base = frozenset()
                    for F, isin in (Q.Spec(E, base).leaves(inside) if i == B else [(base, False)]):
                        cov = [unseen(W, e.pc, fam, e.data[1], nodeX) for e in mine]
                        r = None if isin else Q.cover(E, pc, cov, F)
                        ctx.need(r is None, what, "edge to the function at the target", "no edge is added for a %s when %s" % ("call" if i == BL else "branch out of the function", Q.show(r) if r else ""), key="%s/missing edge" % what)
                        if isin:
                            for e in mine:
                                hit = Q.meets(E, e.pc, F)
                                ctx.need(not hit, what, "no edge for a branch inside the function", "an edge is added for a branch inside the function when " + (Q.show(hit[0]) if hit else ""), e.loc)
    # ---- no other edges
    indirect_nodes = set()
    for e in edges:
        K, T = e.data[1:3]
        lid = e.loops[-1]
        if not ctx.need(K in M.callers, "edge-source", "the analysed function", "an edge starts at another node than the analysed function: %s" % pp(e.data)[:160], e.loc):
            continue
        if T in nodes:
            f, ne = nodes[T]
            indirect_nodes.add(T)
            ctx.need(f and f["local"] == ("A", "Local", W.local_v["Unknown"], ()), "indirect", "unknown usage", "the unknown callee has a known usage", ne.loc)
            for c in e.pc:
                ind = any(a[0] == "b" and is_s(a[1], "an") and a[1][2] == IND and v == YES for a, v in c)
                ctx.need(ind, "indirect", "only for indirect calls", "an unknown callee is added to a function without indirect call when " + Q.show(c), e.loc)
            continue
        ok = False
        for src in R.counters(lid):
            if is_s(under(src), "an") and under(src)[2] in (BL, B) and R.whole(lid, src) is not None and T == S("at", W.INDICES, S("at", W.ADDR2NAME, dest(M, src, R.whole(lid, src)))):
                ok = True
        ctx.need(ok, "edge-target", "the function at the target address", "an edge to the wrong node is added: %s" % pp(T)[:200], e.loc, key="edge-target/" + pp(T)[:40])
        check_once(ctx, W, fam, e, {})
    # ---- indirect calls without type information
    DEF = defined_sets(ctx, M, D)
    ctx.need(DEF, "indirect", "functions with type information", "it is not noted which functions have type information")
    typed = {a for e in R.evs if M.L in e.loops for c in e.pc for a, v in c if a[0] == "b" and a[1][1] == "has" and a[1][2] in DEF and a[1][3] in M.canon}
    cov = [e.pc for e in edges if e.data[1] in M.callers and e.data[2] in nodes]
    cov += [frozenset([frozenset([(a, YES)])]) for a in typed] + [frozenset([frozenset([(b(S("an", IND, *args)), NO)])]) for args in M.args]
    for args in M.args:
        for pc in backs:
            pc = frozenset(c for c in pc if any(Q.contains(a[1], lambda t: is_s(t, "an") and t[3:] == args) for a, _ in c))
            r = Q.cover(E, pc, cov, frozenset([(b(S("an", IND, *args)), YES)]))
            ctx.need(r is None, "indirect", "unknown callee", "a function without type information that makes an indirect call gets no unknown callee when " + (Q.show(r) if r else ""))
    # ---- which targets
    classify(ctx, M)


def under(src):
    while is_s(src, "staged"):
        src = src[2]
    return src


def under_elem(src, p):
    return S("elem", src[2], S("acc", src[3], p)) if is_s(src, "staged") else S("elem", src, p)


def dest(M, src, p):
    return S("add", *sorted((under_elem(src, p), M.addr), key=repr))


def flat_end(M, args):
    """address behind the function's last byte"""
    out = []
    t = args[0]
    if is_s(t, "sub"):
        base = S("call", "xmas_elf::sections::SectionHeader::address", section(t[2]))
        xs = [x for x in Q.flat("add", t[4]) if x != S("neg", base)]
        out.append(xs[0] if len(xs) == 1 else S("add", *sorted(xs, key=repr)))
    return out or [M.addr]


def defined_sets(ctx, M, D):
    """sets that hold the canonical name of every definition that is in the program"""
    R, E, W = M.R, M.E, M.W
    out = set()
    for m in {e.data[0] for e in R.find("sins") if D.outer in e.loops and is_m(e.data[0])}:
        ins = R.find("sins", lambda x, *_: x == m)
        if any(e.data[1] != D.canon for e in ins):
            continue
        gone = D.oget(W.ALIASES, D.name)
        ok = True
        for pc in R.backs(D.outer):
            for c in pc:
                if E.decide(c, gone) == NO:
                    continue
                if Q.uncovered(E, c, [d for e in ins for d in e.pc]) is not None:
                    ok = False
        if ok:
            out.add(m)
    return out


def classify(ctx, M):
    """the targets with machine code analysis"""
    W = M.W
    E = M.E
    ent = E.phis[W.TARGET]
    want = {"thumbv6m-none-eabi": "Thumbv6m", "thumbv7m-none-eabi": "Thumbv7m", "thumbv7em-none-eabi": "Thumbv7m", "thumbv7em-none-eabihf": "Thumbv7m"}
    names = {v: k for k, v in W.target_v.items()}
    subj = {a[1][2] for pc, v in ent["init"] for c in pc for a, _ in c if a[0] == "b" and a[1][1] == "seq" and (a[1][3] if isinstance(a[1][3], str) else a[1][3][1]) in want}
    ctx.need(subj, "target", "examined", "the kind of target does not depend on its name")
    for t, k in want.items():
        for pc, v in ent["init"]:
            hit = [c for c in pc if any(E.decide(c, b(S("seq", X, t))) == YES for X in subj)]
            ctx.need(not hit or names[v[2]] == k, "target", t, "the machine code of %s is analysed as %s" % (t, names[v[2]]))
        ctx.need(any(E.decide(c, b(S("seq", X, t))) == YES for pc, v in ent["init"] if names[v[2]] == k for c in pc for X in subj), "target", t, "the target %s is not recognised" % t)
    for pc, v in ent["init"]:
        hit = [c for c in pc if not any(E.decide(c, b(S("seq", X, t))) == YES for X in subj for t in want)]
        ctx.need(not hit or names[v[2]] == "Other", "target", "others", "the machine code of a target without Thumb code is analysed as %s when %s" % (names[v[2]], Q.show(hit[0]) if hit else ""))


# ------------------------------------------------------------------ C15
def size_maps(R):
    """maps filled from the compiler's stack usage records, and what is put there"""
    ins = {}
    for e in R.find("insert", lambda m, k, v: is_m(m)):
        m, k, v = e.data
        if is_s(k, "key") and is_s(k[2], "f") and is_s(k[2][2], "call") and k[2][2][2] == "stack_sizes::analyze_object":
            ins.setdefault(m, []).append(e)
    return ins


def local_figures(ctx):
    outlined_fn(ctx)
    R = Run(ctx)
    W = Roles(R)
    W.setup_maps()
    E = R.E
    D = DefLoop(W)
    M = Machine(ctx, W)
    complete(ctx, M)
    EX, UN = W.local_v["Exact"], W.local_v["Unknown"]
    li = W.node_f["local"]
    # ---- the recorded figures
    maps = size_maps(R)
    SIZES = one(maps, "recorded stack usage")
    srcs = set()
    for e in maps[SIZES]:
        k, v = e.data[1:]
        K = k[2]
        lid = e.loops[-1] if e.loops else None
        ctx.need(v == S("at", K, k), "recorded", "figure", "another figure than the recorded one is stored: %s" % pp(e.data)[:160], e.loc)
        kvs = [s for s in R.counters(lid) if is_s(s, "kv") and s[2] == K] if lid else []
        p = R.whole(lid, kvs[0]) if kvs else None
        ctx.need(p is not None and k == S("key", K, p), "recorded", "every record", "not every recorded figure is kept", e.loc)
        if p is not None:
            for pc in R.backs(lid):
                on = frozenset(c for c in pc if E.decide(c, b(S("more", kvs[0], p))) == YES)
                r = Q.cover(E, on, [e.pc])
                ctx.need(r is None, "recorded", "every record", "a recorded figure is dropped when %s" % (Q.show(r) if r else ""), e.loc)
        srcs.add(K[2][3])
    others = [e for e in R.find("insert", lambda m, *_: m == SIZES) if e not in maps[SIZES]] + R.find("remove", lambda m, *_: m == SIZES)
    ctx.need(not others, "recorded", "no other figures", "figures that are not the compiler's are recorded: %s" % (others and pp(others[0].data)[:120]))
    obj = [x for x in srcs if is_s(x, "f") and is_s(x[2], "call") and x[2][2] == "std::fs::read" and Q.contains(x, lambda t: is_s(t, "with_extension") and t[-1] == ("s", "o"))]
    ctx.need(obj, "recorded", "figures of the program", "the stack usage records of the program's object file are not read")
    ar = [x for x in srcs if is_m(x)]
    ctx.need(ar, "recorded", "figures of the support library", "the stack usage records of the support library are not read")
    for e in maps[SIZES]:
        x = e.data[1][2][2][3]
        lid = e.loops[0]
        if x in obj:
            src = next((s for s in R.counters(lid) if is_s(s, "kv") and s[2] == e.data[1][2]), None)
            if src is None:
                continue  # reported above
            nxt = [pcs for l in R.toploops() for pcs in [R.before(l)] if any(R.ended(c, src, R.whole(lid, src)) for pc in pcs for c in pc)]
            w = next((c for pc in nxt[0] for c in pc if not R.ended(c, src, R.whole(lid, src))), None) if nxt else frozenset()
            ctx.need(lid in R.toploops() and R.unavoidable(lid) is None or nxt and w is None, "recorded", "always", "the records of the program's object are not always read: " + (Q.show(w) if w is not None else ""), e.loc)
        if x in ar:
            archive(ctx, R, e, x)
    # ---- at the creation of the nodes
    G = W.G
    for e in R.find("add_node", lambda g, *_: g == G):
        if W.symloop not in e.loops:
            continue
        f = W.node_fields(e.data[1])
        if not ctx.need(f, "creation", "node", "a node is created from %s" % pp(e.data)[:120], e.loc):
            continue
        for c in e.pc:
            gets = {a for a, _ in c if a[0] == "var" and is_s(a[1], "get") and a[1][2] == SIZES and a[1][3] == f["name"]}
            known = None
            for a in gets:
                d = E.decide(c, a)
                known = d if d in (YES, NO) else known
            loc = f["local"]
            want = None
            if known == YES:
                want = ("A", "Local", EX, (S("at", SIZES, f["name"]),))
            elif known == NO:
                want = ("A", "Local", UN, ())
            if loc[0] == "A" or want is not None:
                ctx.need(want is not None and Q.same(E, c, loc, want), "creation", "recorded figure", "the local usage of a new node is %s when %s" % (pp(loc)[:120], Q.show(c)), e.loc, key="creation/%s" % (known == YES))
            else:
                ctx.violate("creation/figure", "the local usage of a new node is %s" % pp(loc)[:160], e.loc)
    # ---- changes after the creation
    AN = lambda i: S("AN", i)
    memo = {}

    def an(t):
        if not isinstance(t, tuple):
            return t
        r = memo.get(t)
        if r is None:
            r = AN(t[2]) if is_s(t, "an") else tuple(an(x) for x in t)
            memo[t] = r
        return r

    def ansub(pc):
        return frozenset(frozenset((an(a), v) for a, v in c) for c in pc)
    stores = [e for e in R.find("store") if is_node_local(e.data[0], G, li)]
    for e in R.find("store"):
        t = e.data[0]
        if is_s(t, "f") and is_s(t[2], "at") and t[2][2] == G and t not in [x.data[0] for x in stores] and t[4] == li and W.symloop in e.loops:
            ctx.violate("store/other", "the local usage of a node is changed: %s" % pp(e.data)[:160], e.loc)
    gc = {S("f", S("at", G, c), 0, li) for c in M.callers}
    base = [t for e in stores for t in [root(e.data[0])] if t in gc]
    LOC = one(base, "local usage of the analysed function")
    LK, lv = var(LOC, len(W.local_v)), S("f", LOC, EX, 0)
    SK, sv = var(AN(STACK)), S("f", AN(STACK), 1, 0)
    mod = b(AN(MOD))
    asm = asm_sets(ctx, M, D, W)
    outl = {a for e in stores for c in ansub(e.pc) for a, v in c if a[0] == "b" and is_s(a[1], "is_outlined_function") and a[1][2] in M.canon}
    outl = sorted(outl, key=repr)
    asma = sorted({a for e in R.evs if M.L in e.loops for c in e.pc for a, v in c if a[0] == "b" and a[1][1] == "has" and a[1][2] in asm and a[1][3] in M.canon}, key=repr)
    ctx.need(asm, "override", "functions with inline assembly", "it is not noted which functions contain inline assembly")
    ctx.need(asma, "override", "functions with inline assembly", "functions with inline assembly are not told from others")
    ctx.need(outl, "override", "outlined functions", "outlined functions are not told from others")
    if not (asma and outl):
        return
    z = ("i", 0)

    def spec(q):
        L = q(LK) == EX
        s = q(SK)
        m = q(mod)
        if s:
            s0 = q(b(E.eq(sv, z)))
            if bool(m) == bool(s0):
                return "stop", None
        if not L:
            if s:
                return "store", sv
            return ("store", z) if not m else ("keep", None)
        l0 = q(b(E.eq(lv, z)))
        if not s:
            return ("stop", None) if bool(m) == bool(l0) else ("keep", None)
        same = False
        if l0 == s0:
            same = bool(l0) or bool(q(b(E.eq(lv, sv))))
        else:
            q(b(E.eq(lv, sv)))
        a, o = q(asma[0]), q(outl[0])
        if same:
            return ("stop", None) if bool(m) == bool(l0) else ("keep", None)
        if a:
            return "store", sv
        if o:
            if l0:
                return "store", sv
            return ("stop", None) if not m else ("either", sv)
        return "stop", None
    leaves = []
    for F, r in Q.Spec(E).leaves(spec):
        # an inconsistent scenario
        d = {a: v for a, v in F}
        e1, e2, e3 = d.get(b(E.eq(lv, sv))), d.get(b(E.eq(lv, z))), d.get(b(E.eq(sv, z)))
        if e1 == YES and e2 is not None and e3 is not None and e2 != e3:
            continue
        leaves.append((F, r))
    ctx.need(len(leaves) > 12, "override", "scenarios examined (%d)" % len(leaves))
    raw = [c for pc in R.backs(M.L) for c in pc]
    ctx.need(any(not M.unsized(c) for c in raw), "unknown extent", "functions of known extent", "no function is of known extent")
    backs = [ansub(frozenset(c for c in pc if not M.unsized(c))) for pc in R.backs(M.L)]
    for e in stores:
        for c in e.pc:
            ctx.need(not M.unsized(c), "unknown extent", "no figure", "the local usage of a function of unknown size is claimed to be known when " + Q.show(c), e.loc, key="unknown extent/figure")
    for c in raw:
        if any(Q.contains(a[1], lambda t: is_s(t, "an")) for a, _ in c):
            ctx.need(not M.unsized(c), "unknown extent", "not analysed", "the empty code of a function of unknown size is analysed when " + Q.show(c), key="unknown extent/analysed")

    def value(e):
        t, v = e.data[0], e.data[1]
        if t == LOC:
            return an(v[3][0]) if v[0] == "A" and v[2] == EX else None
        return an(v)
    spcs = [(e, ansub(e.pc), value(e)) for e in stores if M.L in e.loops]
    for e in stores:
        ctx.need(M.L in e.loops, "store", "only by the analysis of machine code", "the local usage of a node is changed: %s" % pp(e.data)[:160], e.loc)
        ctx.need(root(e.data[0]) == LOC, "store", "of the analysed function", "the local usage of another function is changed: %s" % pp(e.data)[:160], e.loc)
    for F, (kind, want) in leaves:
        for bp in backs:
            hit = Q.meets(E, bp, F)
            if kind == "stop":
                ctx.need(not hit, "contradiction", "stops the analysis", "contradictory figures are accepted when " + (Q.show(hit[0]) if hit else ""), key="contradiction/" + Q.show(frozenset((a, v) for a, v in F if a[0] == "b" and a[1][1] != "eq"))[:80])
                continue
            if kind == "store":
                r = Q.cover(E, frozenset(hit), [pc for e, pc, v in spcs if v is not None and Q.same(E, F, v, want)])
                ctx.need(r is None, "override", "with the analysed figure", "the analysed figure %s is not used when %s" % (pp(want), Q.show(r) if r else ""), key="override/missing")
        if kind == "stop":
            continue
        for e, pc, v in spcs:
            hit = Q.meets(E, pc, F)
            if kind == "keep":
                ctx.need(not hit or v is not None and Q.same(E, hit[0], v, lv) or (v == z or v == sv) and E.decide(F, LK) == ("in", frozenset([EX])) and agrees(E, F, v, lv, sv, z),
                         "override", "only when figures disagree", "the compiler's figure is replaced by %s when %s" % (pp(v) if v else "unknown", Q.show(F)), e.loc, key="override/unwanted")
            else:
                ctx.need(not hit or v is not None and Q.same(E, hit[0], v, want) or v == z and E.decide(F, b(E.eq(want, z))) == YES, "override", "the analysed figure", "the local usage becomes %s when %s" % (pp(v) if v else "unknown", Q.show(F)), e.loc, key="override/wrong")


def agrees(E, F, v, lv, sv, z):
    if v == sv:
        return E.decide(F, b(E.eq(lv, sv))) == YES or E.decide(F, b(E.eq(lv, z))) == YES and E.decide(F, b(E.eq(sv, z))) == YES
    return E.decide(F, b(E.eq(lv, z))) == YES


def root(t):
    while is_s(t, "f") and not (is_s(t[2], "at")):
        t = t[2]
    return t


def is_node_local(t, G, li):
    r = root(t)
    return is_s(r, "f") and r[3:] == (0, li) and is_s(r[2], "at") and r[2][2] == G


def cargs(e):
    d = e.data[1:]
    return d[0] if len(d) == 1 and isinstance(d[0], tuple) and d[0] and isinstance(d[0][0], tuple) else d


def archive(ctx, R, e, buf):
    """every object of the support library is read"""
    E = R.E
    L = e.loops[0]
    w = R.unavoidable(L)
    ctx.need(w is None, "recorded", "support library always", "the support library's records are not always read: %s" % w, e.loc)
    rd = [x for x in R.find("call", lambda n, *a: n == "std::io::Read::read_to_end") if buf in cargs(x) and L in x.loops]
    if not ctx.need(rd, "recorded", "bytes of the library's objects", "the objects of the support library are not read", e.loc):
        return
    fresh = L in E.alloc_loops.get(buf, ())
    for x in rd:
        cl = [y for y in R.find("clear", lambda m: m == buf) if L in y.loops]
        ok = fresh or Q.cover(E, x.pc, [y.pc for y in cl]) is None and cl and min(y.seq for y in cl) < x.last
        ctx.need(ok, "recorded", "each object by itself", "an object of the support library is read behind the previous one", x.loc)
        entry = cargs(x)[0]
        ctx.need(Q.contains(entry, lambda t: is_s(t, "call") and t[2] == "ar::Archive::next_entry"), "recorded", "entry of the archive", "the object read is no entry of the support library", x.loc)
    K = e.data[1][2]
    n = 0
    for pc in R.backs(L):
        for c in pc:
            done = any(a[0] == "b" and a[1][1] == "more" and v == NO and is_s(a[1][2], "kv") and a[1][2][2] == K for a, v in c)
            other = False
            for a, v in c:
                ident = Q.contains(a[1], lambda t: is_s(t, "call") and t[2] == "ar::Header::identifier")
                if ident and (a[0] == "var" and is_s(a[1], "utf8") and v == YES or a[0] == "b" and a[1][1] == "cont" and a[1][3] in ("compiler_builtins", ("s", "compiler_builtins")) and v == NO
                              or a[0] == "b" and a[1][1] == "suf" and a[1][3] in (".o", ("s", ".o")) and v == NO):
                    other = True
            n += 1
            ctx.need(done or other, "recorded", "every object of the support library", "an object of the support library is skipped when " + Q.show(c), e.loc)
    ctx.need(n, "recorded", "support library examined", "no object of the support library is examined")
    nxt = 0
    for pc in R.exits(L):
        for c in pc:
            end = any(a[0] == "var" and is_s(a[1], "call") and a[1][2] == "ar::Archive::next_entry" and v == NO for a, v in c)
            fail = any(a[0] == "var" and v == YES and a[2] == 2 and (is_s(a[1], "call") and a[1][2] in ("std::io::Read::read_to_end", "stack_sizes::analyze_object")
                                                                     or is_s(a[1], "f") and is_s(a[1][2], "call") and a[1][2][2] == "ar::Archive::next_entry") for a, v in c)
            nxt += end
            ctx.need(end or fail, "recorded", "to the end of the archive", "the rest of the support library is skipped when " + Q.show(c), e.loc)
    ctx.need(nxt, "recorded", "end of the archive")


def asm_sets(ctx, M, D, W):
    """sets that hold the canonical names of exactly the functions with inline assembly"""
    R, E = M.R, M.E
    out = set()
    F = frozenset([(D.kind, ("in", frozenset([W.stmt_v["Asm"]])))])
    for m in {e.data[0] for e in R.find("sins") if D.inner in e.loops and is_m(e.data[0])}:
        ins = R.find("sins", lambda x, *_: x == m)
        if any(e.data[1] != D.canon or D.inner not in e.loops for e in ins):
            continue
        bad = [c for e in ins for c in e.pc if E.decide(c, D.kind) != ("in", frozenset([W.stmt_v["Asm"]]))]
        have = {a for e in R.evs if D.inner in e.loops for c in e.pc for a, v in c if a[0] == "b" and a[1][1] == "has" and a[1][2] == m and a[1][3] == D.canon}
        cov = [d for e in ins for d in e.pc] + [frozenset([(a, YES)]) for a in have]
        miss = [r for pc in R.backs(D.inner) for r in [Q.cover(E, pc, [cov], F)] if r is not None]
        if not bad and not miss:
            out.add(m)
    return out
