"""The two output formats: what is written, for every graph."""
from engine import S, St, pp, Incomplete
import q as Q
import tape as T
import models
from engine import subst
from q import b, var
from props.bounds import anchor, variants

STDOUT = S("stdout")
CELL = ("#tape", STDOUT)
ZERO = ("i", 0)


def field(ctx, adt, name):
    a = ctx.j["adts"].get(adt)
    if a is None:
        raise Incomplete("type not found: " + adt)
    for i, f in enumerate(a["variants"][0]["fields"]):
        if f == name:
            return i
    raise Incomplete("field not found: %s.%s" % (adt, name))


class NodeView:
    """fields of a graph node, found by type and name"""

    def __init__(self, ctx, term):
        self.t = term
        self.nv, self.lv = variants(ctx, "Max"), variants(ctx, "Local")
        self.name = S("f", term, 0, field(ctx, "Node", "name"))
        self.local = S("f", term, 0, field(ctx, "Node", "local"))
        self.max = S("f", term, 0, field(ctx, "Node", "max"))
        self.dashed = S("f", term, 0, field(ctx, "Node", "dashed"))
        self.max_v = S("f", self.max, 1, 0)

    def max_n(self, k):
        return S("f", self.max_v, k, 0)

    def local_n(self):
        return S("f", self.local, self.lv["Exact"], 0)


def run_output(ctx, key, nargs):
    E = ctx.engine()
    args = [S("arg", i) for i in range(nargs)]
    for x in ctx.j["bodies"]:
        if "#promoted" not in x["key"] and x["path"].endswith(("> as std::fmt::Write>::write_str", "> as std::fmt::Write>::write_char")):
            E.key_models[x["key"]] = models.write_str   # what the writer itself does is checked separately
    outs = E.run(key, args)
    fin = []
    E.finals = []
    for s, v in outs:
        v = E.deep(s, v)
        if v[0] == "A":
            if v[2] == 0:
                fin.append((s.pc, s.mem[CELL]))
                E.finals.append((s.mem[CELL], s.mem.get(("#flushed",) + CELL[1:])))
        else:
            s2 = E.restrict(s, ("var", v, 2), ("in", frozenset([0])))
            if s2 is not None:
                fin.append((s2.pc, s2.mem[CELL]))
                E.finals.append((s2.mem[CELL], s2.mem.get(("#flushed",) + CELL[1:])))
    return E, outs, fin


# ------------------------------------------------------------------ loops
def loop_counter(E, lid, src):
    """the position phi of the iteration of loop lid over src"""
    out = set()
    for l in E.loops.get(lid, []):
        for st in l["backs"]:
            for c in st.pc:
                for a, v in c:
                    if v != ("in", frozenset([1])) or a[0] != "b":
                        continue
                    if a[1][1] == "more" and a[1][2] == src or a[1][1] == "lt" and a[1][3] == S("len", src):
                        p = a[1][3] if a[1][1] == "more" else a[1][2]
                        if p[0] == "S" and p[1] == "phi" and p[2] == lid:
                            out.add(p)
    return out


def whole_iteration(E, lid, src):
    """the loop visits every element of src from the first on -> position term or None"""
    ps = loop_counter(E, lid, src)
    if len(ps) != 1:
        return None
    p = next(iter(ps))
    ent = E.phis.get(p)
    if not ent or any(v != ZERO for _, v in ent["init"]) or any(v != S("add", *sorted((p, ("i", 1)), key=repr)) for _, v in ent["back"]):
        return None
    return p


def loop_src(E, lid):
    r = set()
    for l in E.loops.get(lid, []):
        for st in l["backs"]:
            for c in st.pc:
                for a, v in c:
                    if a[0] == "b" and a[1][1] == "more" and v == ("in", frozenset([1])):
                        p = a[1][3]
                        if p[0] == "S" and p[1] == "phi" and p[2] == lid:
                            r.add(a[1][2])
    return r


def twins(E, lid, p, bodies):
    """bodies with other variables that count the iterations from a constant on expressed by the position"""
    m = {}
    for x, ent in E.phis.items():
        ini = {v for _, v in ent["init"]}
        if x != p and x[2] == lid and ent["back"] and len(ini) == 1 and all(v == S("add", *sorted((x, ("i", 1)), key=repr)) for _, v in ent["back"]):
            k = next(iter(ini))
            if k[0] == "i":
                m[x] = p if k == ZERO else S("add", *sorted((p, k), key=repr))
    return tuple((pc, subst(alt, m)) for pc, alt in bodies) if m else bodies


def unescape(ps):
    """text whose quotes are replaced by escaped ones is what the escaping writer writes"""
    out = []
    for x in ps:
        if x[:2] == ("S", "disp") and x[2][:2] == ("S", "replace") and x[2][3:] in ((("i", 34), ("s", '\\"')), (("s", '"'), ("s", '\\"'))):
            x = S("via", "Escaper", S("disp", x[2][2]))
        out.append(x)
    return out


def exhausted(E, pcs, src, p):
    """every conjunction says that the iteration over src at p has ended"""
    ats = [("b", S("more", src, p)), ("b", S("lt", p, S("len", src)))]
    return all(any(E.decide(c, at) == ("in", frozenset([0])) for at in ats) for pc in pcs for c in pc)


# ------------------------------------------------------------------ DOT tokens
def tokens(ps):
    """token list of DOT text: outside quotes white space, `;` and `,` separate; attribute lists are sorted"""
    out, cur, inq = [], [], False

    def flush():
        if cur:
            out.append(tuple(T.merge_text(cur)))
            del cur[:]
    for p in ps:
        if p[0] == "s":
            i, t = 0, p[1]
            while i < len(t):
                ch = t[i]
                if inq:
                    if ch == "\\" and i + 1 < len(t):
                        cur.append(("s", t[i:i + 2]))
                        i += 2
                        continue
                    cur.append(("s", ch))
                    if ch == '"':
                        inq = False
                        flush()
                elif ch == '"':
                    flush()
                    cur.append(("s", ch))
                    inq = True
                elif ch in " \t\n;,":
                    flush()
                elif ch in "[]{}=":
                    flush()
                    out.append((("s", ch),))
                elif ch == "-" and t[i:i + 2] == "->":
                    flush()
                    out.append((("s", "->"),))
                    i += 1
                else:
                    cur.append(("s", ch))
                i += 1
        elif p[0] == "loop":
            flush()
            out.append(p)
        else:
            cur.append(p)
    if inq:
        out.append((("s", "unterminated quote"),))
    flush()
    return sort_attrs(out)


def sort_attrs(toks):
    out, i = [], 0
    while i < len(toks):
        if toks[i] == (("s", "["),):
            j = i + 1
            attrs = []
            while j < len(toks) and toks[j] != (("s", "]"),):
                if j + 2 < len(toks) and toks[j + 1] == (("s", "="),):
                    attrs.append(toks[j:j + 3])
                    j += 3
                else:
                    attrs.append(toks[j:j + 1])
                    j += 1
            out.append(toks[i])
            for a in sorted(attrs, key=repr):
                out += a
            i = j
        else:
            out.append(toks[i])
            i += 1
    return out


def show_tok(ts):
    return " ".join(T.show(t) if t[0] != "loop" else "(loop)*" for t in ts)


def text(*xs):
    return [("s", x) if isinstance(x, str) else x for x in xs]


def D(t):
    return S("disp", t)


# ------------------------------------------------------------------ checks
def compare_bodies(ctx, E, rule, where, bodies, spec, norm, what):
    """every alternative body text of a loop agrees with the specification in every scenario"""
    sp = Q.Spec(E)
    n = 0
    for F, want in sp.leaves(spec):
        w = norm(T.merge_text(want))
        hit = False
        for pc, alt in bodies:
            got = norm(T.merge_text(unescape(alt)))
            for c in Q.meets(E, pc, F):
                hit = True
                n += 1
                if not same_text(E, c, got, w):
                    ctx.violate("%s/%s" % (rule, what), "%s: when %s the text is `%s`, expected `%s`" % (where, Q.show(F), disp_any(got), disp_any(w)))
                    break
        if not hit:
            ctx.violate("%s/%s-missing" % (rule, what), "%s: nothing is written when %s" % (where, Q.show(F)))
    ctx.ok(rule, "%s: %d scenario/path pairs agree" % (what, n))


def disp_any(x):
    return show_tok(x) if x and isinstance(x[0], tuple) and x[0] and isinstance(x[0][0], tuple) else T.show(x)


def same_text(E, c, got, want):
    return got == want or [Q.nf(x, c, E) for x in got] == [Q.nf(x, c, E) for x in want]


def the_loops(ps):
    return [p for p in ps if p[0] == "loop"]


def dot(ctx):
    key = anchor(ctx, "dot")
    E, outs, fin = run_output(ctx, key, 2)
    g, cycles = S("arg", 0), S("arg", 1)
    nodes, edges = S("raw_nodes", g), S("raw_edges", g)
    where = "dot output"
    if not ctx.need(fin, "shape", "there is a successful run"):
        return
    grammars = set()
    for pc, v in fin:
        for _, ps in T.expand(E, CELL, v):
            grammars.add(tuple(T.merge_text(ps)))
    ctx.need(len(grammars) == 1, "shape", "one overall shape of the file", "dot writes files of %d different shapes" % len(grammars))
    pcs = [pc for pc, _ in fin]
    for ps in grammars:
        ps = list(ps)
        toks = tokens(ps)
        loops = the_loops(ps)
        byrole = {}
        for l in loops:
            for s in loop_src(E, l[1]):
                if s in (nodes, edges, cycles):
                    byrole.setdefault(s, []).append(l)
        for role, nm in ((nodes, "nodes"), (edges, "edges"), (cycles, "cycles")):
            ctx.need(len(byrole.get(role, [])) == 1, "listed-once", nm + " are listed by exactly one loop",
                     "the %s are listed by %d loops" % (nm, len(byrole.get(role, []))), where)
        ctx.need(len(loops) == 3, "shape", "three listings", "dot contains %d listings" % len(loops))
        untouched(ctx, E, (g, cycles, nodes, edges), where)
        # the frame
        frame = [t for t in toks if t[0] != "loop"]
        want = tokens(text("digraph {\n    node [fontname=monospace shape=box]\n}\n"))
        ctx.need(frame == want, "shape", "one digraph with closing brace", "the frame of the file is `%s`, expected `%s`" % (show_tok(frame), show_tok(want)), where)
        ctx.need(toks and toks[-1] == (("s", "}"),), "shape", "the file ends with the closing brace")
        # nodes
        for l in byrole.get(nodes, []):
            p = whole_iteration(E, l[1], nodes)
            if not ctx.need(p is not None and exhausted(E, pcs, nodes, p), "complete", "every node of the graph is listed", "not every node is listed", where):
                continue
            nv = NodeView(ctx, S("at", g, S("nodeix", p)))

            def spec(q):
                out = text("    ", D(p), ' [label="', S("via", "Escaper", D(S("demangle", nv.name))))
                if q(var(nv.max)) == 1:
                    k = q(var(nv.max_v))
                    out += text("\\nmax = " if k == nv.nv["Exact"] else "\\nmax >= ", D(nv.max_n(k)))
                out += text("\\nlocal = ")
                out += text(D(nv.local_n())) if q(var(nv.local)) == nv.lv["Exact"] else text("?")
                out += text('"')
                if q(b(nv.dashed)):
                    out += text(" style=dashed")
                return out + text("]\n")
            compare_bodies(ctx, E, "node-statement", where, twins(E, l[1], p, l[3]), spec, tokens, "node")
        # edges
        for l in byrole.get(edges, []):
            p = whole_iteration(E, l[1], edges)
            if not ctx.need(p is not None and exhausted(E, pcs, edges, p), "complete", "every edge of the graph is listed", "not every edge is listed", where):
                continue
            e = S("elem", edges, p)
            compare_bodies(ctx, E, "edge-statement", where, l[3],
                           lambda q: text("    ", D(S("ixof", S("source", e))), " -> ", D(S("ixof", S("target", e))), "\n"), tokens, "edge")
        # cycles
        for l in byrole.get(cycles, []):
            p = whole_iteration(E, l[1], cycles)
            if not ctx.need(p is not None and exhausted(E, pcs, cycles, p), "complete", "every cycle is listed", "not every cycle is listed", where):
                continue
            cyc = S("elem", cycles, p)
            for pc, alt in twins(E, l[1], p, l[3]):
                inner = the_loops(alt)
                if not ctx.need(len(inner) == 1 and loop_src(E, inner[0][1]) == {cyc}, "complete", "members of a cycle are listed", "a cycle's members are not listed by one loop over the cycle", where):
                    continue
                ip = whole_iteration(E, inner[0][1], cyc)
                backs = [s.pc for x in E.loops[l[1]] for s in x["backs"]]
                if ctx.need(ip is not None and exhausted(E, backs, cyc, ip), "complete", "every member of a cycle is listed", "not every member of a cycle is listed", where):
                    compare_bodies(ctx, E, "cycle-member", where, inner[0][3], lambda q: text("        ", D(S("ixof", S("elem", cyc, ip))), "\n"), tokens, "member")
                got = tokens(list(alt))
                want = tokens(text("\n    subgraph cluster_", D(p), " {\n        style=dashed\n        fontname=monospace\n        label=\"SCC", D(p), "\"\n",
                                   inner[0], "    }\n"))
                ctx.need(got == want, "cycle-statement", "cluster statement", "a cycle is written as `%s`, expected `%s`" % (show_tok(got), show_tok(want)), where)
    escaping(ctx)


def escaping(ctx):
    """the label writer: every character is written, a quote is preceded by a backslash"""
    for fn in ("write_str", "write_char"):
        k = None
        for x in ctx.j["bodies"]:
            if "#promoted" not in x["key"] and x["path"].endswith("Escaper<W> as std::fmt::Write>::" + fn):
                k = x["key"]
        if k is None:
            if fn == "write_str":
                raise Incomplete("label writer not found")
            continue
        E = ctx.engine()
        wr = S("f", S("arg", 0), 0, field(ctx, "Escaper", "writer"))
        st = St()
        cell = ("#tape", wr)
        st.mem[cell] = ("s", "")
        outs = E.run(k, [S("arg", 0), S("arg", 1)], st)
        good = [(s, v) for s, v in outs if ok_pc(E, s, v)]
        ctx.need(good, "escape", fn + " can succeed")
        if fn == "write_char":
            bodies = [(s2.pc, T.pieces(s.mem[cell])) for s, v in good for s2 in [ok_pc(E, s, v)]]
            c = S("arg", 1)
        else:
            ls, ends, early = set(), [], []
            for s, v in good:
                for pc, ps in T.expand(E, cell, s.mem[cell]):
                    if len(ps) == 1 and ps[0][0] == "loop":
                        ls.add(ps[0])
                        ends.append(s.pc)
                    else:
                        early.append((s, ps))
            if not ls and E.loops:
                # the loop writes nothing on its tape cell (no change recorded): nothing is written at all
                ctx.violate("escape/write_str", "the label writer writes nothing")
                return
            if not ctx.need(len(ls) == 1, "escape", "write_str is one loop over the characters", "write_str does not treat its text character by character"):
                continue
            l = next(iter(ls))
            src = S("chars", S("arg", 1))
            p = whole_iteration(E, l[1], src)
            if not ctx.need(p is not None, "escape", "write_str visits every character", "write_str does not visit every character of the text"):
                continue
            ctx.need(exhausted(E, ends, src, p), "escape", "write_str only succeeds at the end of the text", "write_str reports success before the end of the text")
            for s, ps in early:
                ctx.need(exhausted(E, [s.pc], src, p) or False, "escape", "write_str never skips the text", "write_str reports success without writing its text when %s" % Q.show(next(iter(s.pc))))
            bodies = l[3]
            c = S("elem", src, p)
        atom = ("val", c)
        quote = ("in", frozenset([34]))
        n = 0
        for pc, alt in bodies:
            for conj in pc:
                k2 = E.decide(conj, atom)
                alt_s = T.merge_text(list(alt))
                plain = [D(c)]
                esc = [("s", "\\"), D(c)]
                lit = [("s", '\\"')]
                n += 1
                isq = k2 == quote
                notq = k2 is not None and Q.empty(Q.inter(k2, quote))
                if isq:
                    ctx.need(alt_s in (esc, lit), "escape", fn + ": a quote is escaped", "%s writes a quote as `%s`" % (fn, T.show(alt_s)))
                elif notq:
                    back = k2 == ("in", frozenset([92]))
                    ctx.need(alt_s == plain or (back and alt_s in (esc, [("s", "\\\\")])), "escape", fn + ": any other character is written as it is",
                             "%s writes a character other than a quote as `%s` when %s" % (fn, T.show(alt_s), Q.show(conj)))
                else:
                    ctx.violate("escape/" + fn, "%s does not distinguish quotes: it writes `%s` when %s" % (fn, T.show(alt_s), Q.show(conj)))
        ctx.ok("escape", "%s: %d paths" % (fn, n))
    # a failed write is remembered and stops the writer
    return


def ok_pc(E, s, v):
    v = E.deep(s, v)
    if v[0] == "A":
        return s if v[2] == 0 else None
    return E.restrict(s, ("var", v, 2), ("in", frozenset([0])))




def top(ctx):
    import reduce as R
    key = anchor(ctx, "top")
    E, outs, fin = run_output(ctx, key, 1)
    g = S("arg", 0)
    nodes = S("raw_nodes", g)
    where = "top output"
    if not ctx.need(fin, "shape", "there is a successful run"):
        return
    heads = []
    lists = set()
    for pc, v in fin:
        for pc2, ps in T.expand(E, CELL, v):
            ps = T.merge_text(ps)
            loops = the_loops(ps)
            c = T.both(pc, pc2) if pc2 is None else frozenset(x for p in pc for q in pc2 for x in [Q.merge(E, p, q)] if x is not None)
            if loops:
                ctx.need(len(loops) == 1 and ps[-1] == loops[0], "shape", "the listing ends the output", "text follows the listing: `%s`" % T.show(ps), where)
                lists.add(loops[0])
                heads.append((c, ps[:ps.index(loops[0])], True))
            else:
                heads.append((c, ps, False))
    # ---- listing
    ctx.need(len(lists) == 1, "listed-once", "the nodes are listed by one loop", "there are %d listings" % len(lists), where)
    vecs = {}
    for l in lists:
        srcs = loop_src(E, l[1])
        if not ctx.need(len(srcs) == 1, "listed-once", "one sequence drives the listing", "the listing runs over %d sequences" % len(srcs), where):
            continue
        vec = next(iter(srcs))
        p = whole_iteration(E, l[1], vec)
        done = [pc for pc, ps, has in heads if has]
        if not ctx.need(p is not None and exhausted(E, done, vec, p), "complete", "every entry is listed", "not every entry is listed", where):
            continue
        # the node behind an entry
        terms = {t for pc, alt in l[3] for x in alt for t in Q.subterms(x) if isinstance(t, tuple) and len(t) == 4 and t[:2] == ("S", "at") and t[2] == g}
        terms |= {t[2] for pc, alt in l[3] for cj in pc for a, _ in cj for t in Q.subterms(a) if isinstance(t, tuple) and t[:2] == ("S", "f") and t[2][:2] == ("S", "at") and t[2][2] == g and Q.contains(t[2], lambda z: z == p)}
        if not ctx.need(len(terms) == 1, "entry", "an entry describes one node", "the listing mixes %d nodes in one entry" % len(terms), where):
            continue
        t = next(iter(terms))
        nv = NodeView(ctx, t)
        every_node(ctx, E, vec, g, nodes, t, p, where)
        untouched(ctx, E, (vec, g, nodes), where)
        ordered(ctx, E, vec, l, g, nv, where)

        def spec(q):
            n = text(D(nv.local_n())) if q(var(nv.local)) == nv.lv["Exact"] else text("0")
            return n + text(" ", D(S("demangle", nv.name)), "\n")
        compare_bodies(ctx, E, "entry", where, [(pc, devia(alt)) for pc, alt in l[3]], spec, T.merge_text, "node")
    # ---- heading
    nb = 0
    for pc, ps, has in heads:
        ps = list(ps)
        if ps == text("Usage Function\n"):
            for c in pc:
                empty = any(E.decide(c, ("b", S("more", s, ZERO))) == ("in", frozenset([0])) for s in seqs(E, nodes))
                ctx.need(empty, "maximum-line", "left out only when the graph is empty", "the MAX line is missing although there may be nodes (%s)" % Q.show(c), where)
            continue
        good = len(ps) == 2 and ps[0][:2] == ("S", "disp") and ps[1] == ("s", " MAX\nUsage Function\n")
        if not ctx.need(good, "maximum-line", "`<number> MAX` then the column titles", "the output starts with `%s`" % T.show(ps), where):
            continue
        maximum(ctx, E, ps[0][2], pc, nodes, g, where)
        nb += 1
    ctx.need(nb, "maximum-line", "the maximum is printed")
    ctx.need(any(not has for _, _, has in heads) or lists, "shape", "all outcomes analysed")


def devia(alt):
    out = []
    for x in alt:
        if x[0] == "S" and x[1] == "via":
            out += T.pieces(x[3])
        else:
            out.append(x)
    return tuple(T.merge_text(out))


def seqs(E, nodes):
    """sequences with exactly one entry per node"""
    r = [nodes]
    for m, ys in E.colls.items():
        if one_per_node(E, m, nodes):
            r.append(m)
    return r


def one_per_node(E, m, nodes):
    ys = E.colls.get(m) or []
    lids = {y[2] for y in ys}
    if len(lids) != 1 or not next(iter(lids)):
        return False
    loops = next(iter(lids))
    if len(loops) != 1:
        return False
    p = whole_iteration(E, loops[0], nodes)
    if p is None:
        return False
    backs = [s.pc for x in E.loops[loops[0]] for s in x["backs"]]
    for pc in backs:
        if Q.cover(E, pc, [y[0] for y in ys]) is not None:
            return False
    return True


def every_node(ctx, E, vec, g, nodes, t, p, where):
    if vec == nodes:
        ctx.need(t == S("at", g, S("nodeix", p)), "entry", "entry k describes node k")
        return
    ctx.need(one_per_node(E, vec, nodes), "complete", "every node has an entry", "not every node of the graph gets an entry", where)
    ix = t[3]
    ctx.need(ix[:2] == ("S", "nodeix") and ix[2][:2] == ("S", "ix") and ix[2][3] == vec and ix[2][4] == p, "entry", "the k-th entry describes the node that was entered k-th", "an entry describes %s" % pp(t), where)


def untouched(ctx, E, objs, where):
    """what is printed is not changed on the way"""
    bad = [e for e in E.events if e.data and (e.kind == "mutate" and e.data[1] in objs or e.kind in ("mutcall", "clear", "remove", "insert", "sins", "add_node", "add_edge") and e.data[0] in objs
                                              or e.kind == "store" and Q.contains(e.data[0], lambda t: t in objs))]
    ctx.need(not bad, "unchanged", "what is printed stays as it is", "the data that are printed are changed before or while they are printed (%s)" % (bad and (bad[0].kind, pp(bad[0].data[1])[:80] if isinstance(bad[0].data[1], tuple) else bad[0].data[1]),), bad[0].loc if bad else where, key="unchanged")


def ordered(ctx, E, vec, l, g, nv, where):
    """the listing is sorted by decreasing local usage (unknown counts as 0)"""
    evs = [e for e in E.events if e.kind == "sort" and e.data[0] == vec]
    if not ctx.need(evs, "sorted", "entries are sorted before they are listed", "the entries are never sorted", where):
        return
    outs = [pc for pc in [s["entry"].pc for s in E.loops[l[1]]]]
    for pc in outs:
        w = Q.cover(E, pc, [e.pc for e in evs])
        ctx.need(w is None, "sorted", "on every path", "the listing is reached unsorted when %s" % (w and Q.show(w)), where)
    for e in evs:
        _, kind, ords = e.data
        sa, sb = S("sa"), S("sb")
        A, B = NodeView(ctx, sa), NodeView(ctx, sb)
        LESS, EQ, GT = order_values(E)

        def usage(q, V):
            return V.local_n() if q(var(V.local)) == V.lv["Exact"] else ZERO
        if kind[1] in ("sort_by", "sort_unstable_by"):
            def spec(q):
                a, bb = usage(q, A), usage(q, B)
                if a == bb:
                    return EQ
                if q(b(S("lt", bb, a))):
                    return LESS
                return GT if q(b(S("lt", a, bb))) else EQ
            cmp_spec(ctx, E, ords, spec, {LESS, EQ, GT}, where)
        else:
            # sort_by_key: the key must be the reversed usage
            n = 0
            for V in (A, B):
              for F, want in Q.Spec(E).leaves(lambda q: usage(q, V)):
                for pc, v in ords:
                    mine = {t for x in [v] + [a for c in pc for a, _ in c] for t in Q.subterms(x) if t in (sa, sb)}
                    if V.t not in mine and mine:
                        continue
                    for c in Q.meets(E, pc, F):
                        n += 1
                        good = v[0] == "A" and v[1].endswith("Reverse") and Q.same(E, c, v[3][0], want)
                        ctx.need(good, "sorted", "key is the reversed usage", "the sort key is %s, not the reversed local usage" % pp(v), where)
            ctx.need(n, "sorted", "key examined")


def order_values(E):
    return "less", "equal", "greater"


def cmp_spec(ctx, E, ords, spec, vals, where):
    n = 0
    for F, want in Q.Spec(E).leaves(spec):
        for pc, v in ords:
            for c in Q.meets(E, pc, F):
                got = ordering(E, c, v)
                n += 1
                ctx.need(got == want, "sorted", "comparison", "entries compare as %s when %s; decreasing local usage requires %s" % (got, Q.show(c), want), where, key="sorted/%s" % want)
    ctx.need(n >= 3, "sorted", "comparison examined (%d cases)" % n)


def ordering(E, c, v):
    """value of type Ordering under facts c"""
    if v[0] == "A":
        return ("less", "equal", "greater")[v[2]]
    if v[0] == "i":
        return {-1: "less", 0: "equal", 1: "greater", 255: "less"}.get(v[1], "?")
    if v[0] == "S" and v[1] in ("cmp", "ord"):
        x, y = v[2], v[3]
        lt, gt = E.decide(c, ("b", E.lt(x, y))) if E.lt(x, y)[0] == "S" else None, E.decide(c, ("b", E.lt(y, x))) if E.lt(y, x)[0] == "S" else None
        one, zero = ("in", frozenset([1])), ("in", frozenset([0]))
        if x == y:
            return "equal"
        if x[0] == y[0] == "i":
            return "less" if x[1] < y[1] else "greater"
        if lt == one:
            return "less"
        if gt == one:
            return "greater"
        if lt == gt == zero:
            return "equal"
    return pp(v)


def maximum(ctx, E, v, pc, nodes, g, where):
    """v is the largest cumulative bound of all nodes"""
    import reduce as R
    sq = seqs(E, nodes)
    isb = lambda t: isinstance(t, tuple) and (t[:2] == ("S", "phi") or (t[:2] == ("S", "f") and t[2][:2] == ("S", "f")) or (t[:2] == ("S", "maxof")))
    phis = {t for t in Q.subterms(v) if isinstance(t, tuple) and len(t) == 5 and t[:2] == ("S", "phi")}
    if not ctx.need(len(phis) == 1, "maximum-line", "one accumulator", "the MAX line shows %s" % pp(v), where):
        return
    ph = next(iter(phis))
    lid = ph[2]
    cs = [x for x in R.counter(E, lid) if x[0] in sq]
    if not ctx.need(len(cs) == 1, "maximum-line", "accumulated over all nodes", "the MAX line is not computed over the nodes of the graph", where):
        return
    src, p, inits = cs[0]
    nv_, = [NodeView(ctx, None)]

    def contribution(q, t):
        V = NodeView(ctx, t)
        if q(var(V.max)) == 0:
            return ZERO
        return R.num(V.max_v)
    shown = R.strip_kind(v, isb)
    ctx.need(shown in (R.num(ph), ph), "maximum-line", "the accumulated number is shown", "the MAX line shows %s" % pp(v), where)
    ent = E.phis[ph]

    def node_of(pos):
        return S("at", g, S("nodeix", pos if src == nodes else S("ix", next(iter({y[2][0] for y in E.colls[src]})), src, pos)))
    n = 0
    for F, want in Q.Spec(E).leaves(lambda q: contribution(q, node_of(p))):
        for bpc, bv in ent["back"]:
            for c in Q.meets(E, bpc, F):
                n += 1
                got = R.num(bv) if bv[0] == "A" else bv
                acc = R.num(ph) if shown != ph else ph
                bv2 = R.strip_kind(got, isb)
                if not R.same_num(E, strip_conj(c, R, isb), bv2, S("max", acc, want), isb):
                    ctx.violate("maximum-line/step", "the maximum becomes %s instead of the larger of itself and %s when %s" % (pp(bv), pp(want), Q.show(c)), where)
    ctx.need(n, "maximum-line", "step examined")
    for ipc, iv in ent["init"]:
        if inits == {ZERO}:
            got = R.num(iv) if iv[0] == "A" else iv
            ctx.need(got == ZERO, "maximum-line", "starts from zero", "the maximum starts from %s" % pp(iv), where)
        elif inits == {("i", 1)}:
            for F, want in Q.Spec(E).leaves(lambda q: contribution(q, node_of(ZERO))):
                for c in Q.meets(E, ipc, F):
                    got = R.num(iv) if iv[0] == "A" or iv[:2] == ("S", "f") else iv
                    ctx.need(R.same_num(E, c, R.strip_kind(got, isb), want, isb) or R.same_num(E, c, R.strip_kind(iv, isb), want, isb), "maximum-line", "starts from the first node", "the maximum starts from %s" % pp(iv), where)
        else:
            ctx.violate("maximum-line/start", "the maximum leaves out nodes (positions start at %s)" % [pp(x) for x in inits], where)
    ctx.need(exhausted(E, [pc], src, p), "maximum-line", "computed over every node", "the maximum is taken before every node was seen", where)


def strip_conj(c, R, isb):
    return frozenset((R.strip_kind(a, isb), v) for a, v in c)


# ------------------------------------------------------------------ errors
def ends_line(E, tape, done, seen=()):
    """the text ends with a line end: a line writer has passed all of it on"""
    if tape == done or tape in seen:
        return True
    ps = [p for p in T.pieces(tape) if p != ("s", "")]
    if not ps:
        return True
    x = ps[-1]
    if x[0] == "s":
        return x[1].endswith("\n")
    if T.is_tape_phi(x, CELL):
        e = E.phis[x]
        return all(ends_line(E, v, done, seen + (tape,)) for _, v in list(e["back"]) + list(e["init"]))
    if x[0] == "S" and x[1] == "via":
        return ends_line(E, x[3], done, seen)
    return False


def io_errors(ctx):
    """a failed write makes the output function fail"""
    OKAY, FAIL = ("in", frozenset([0])), ("in", frozenset([1]))
    for fn, nargs in (("dot", 2), ("top", 1)):
        key = anchor(ctx, fn)
        E, outs, fin = run_output(ctx, key, nargs)
        writes = [e for e in E.events if e.kind in ("write", "flush")]
        ctx.need(len(writes) >= 3, "writes", fn + " writes")
        ctx.need(fin, "writes", fn + " can succeed")
        n = 0
        for tape, done in E.finals:
            ctx.need(tape == done or not getattr(E, "buffered", False) and ends_line(E, tape, done), "written out", fn + " leaves nothing in a buffer",
                     "%s succeeds although text may still be in a buffer whose writing can fail" % fn, key="buffered/%s" % fn)

        def status(c, io):
            """what facts c say about the outcome of the write io"""
            k = E.decide(c, ("var", io, 2))
            if k == OKAY:
                return "ok"
            for a, v in c:
                if a[0] == "var" and a[1][:2] == ("S", "afterwrite") and a[1][2] == io[3]:
                    return "ok" if v == OKAY else "err"
            return "err" if k == FAIL else "ignored"
        for e in writes:
            io = e.data[2]
            if e.loops:
                ends = [s.pc for x in E.loops.get(e.loops[-1], []) for s in x["backs"]]
                what = "the next element is treated"
            else:
                ends = [pc for pc, _ in fin]
                what = "it succeeds"
            for pc in ends:
                for c in pc:
                    for d in e.pc:
                        m = Q.merge(E, c, d)
                        if m is None:
                            continue
                        n += 1
                        if status(m, io) != "ok":
                            ctx.violate("ignored/%s/%s" % (fn, T.show(e.data[1][1])[:40] if e.data[1] else "flush"),
                                        "%s: the outcome of writing `%s` is ignored: %s although it may have failed" % (fn, T.show(e.data[1][1]) if e.data[1] else "flush", what), e.loc)
            for pc, _ in fin:
                for c in pc:
                    n += 1
                    if status(c, io) == "err":
                        ctx.violate("swallowed/%s" % fn, "%s succeeds although writing `%s` failed" % (fn, T.show(e.data[1][1]) if e.data[1] else "flush"), e.loc)
        ctx.ok("propagates", "%s: %d writes, %d path pairs" % (fn, len(writes), n))
    # the label writer remembers the first failure and stops
    err = S("f", S("arg", 0), 0, field(ctx, "Escaper", "error"))
    for fn in ("write_str", "write_char"):
        k = next((x["key"] for x in ctx.j["bodies"] if "#promoted" not in x["key"] and x["path"].endswith("Escaper<W> as std::fmt::Write>::" + fn)), None)
        if k is None:
            if fn == "write_str":
                raise Incomplete("label writer not found")
            continue
        E = ctx.engine()
        outs = E.run(k, [S("arg", 0), S("arg", 1)])
        writes = [e for e in E.events if e.kind == "write"]
        ctx.need(writes, "label-writer", fn + " writes")
        nok = nerr = 0
        for s, v in outs:
            v = E.deep(s, v)
            kept = s.sh.get(err)
            good, bad = ok_pc(E, s, v), err_pc(E, s, v)
            for e in writes:
                io = ("var", e.data[2], 2)
                if good is not None:
                    for c in good.pc:
                        if E.decide(c, io) == FAIL:
                            ctx.violate("label-writer/swallowed", "%s reports success although a write failed" % fn, e.loc)
            if bad is not None:
                nerr += 1
                ctx.need(kept is not None and kept[0] == "A" and kept[2] == 1, "label-writer", fn + " remembers the failure", "%s fails without remembering the failure" % fn)
            if good is not None:
                nok += 1
                ctx.need(kept is None, "label-writer", fn + " leaves the remembered failure alone on success", "%s changes the remembered failure although it succeeds" % fn)
        for e in writes:
            io = ("var", e.data[2], 2)
            ends = [s.pc for x in E.loops.get(e.loops[-1], []) for s in x["backs"]] if e.loops else [g.pc for s, v in outs for g in [ok_pc(E, s, v)] if g is not None]
            for pc in ends:
                for c in pc:
                    for d in e.pc:
                        m = Q.merge(E, c, d)
                        if m is not None:
                            ctx.need(E.decide(m, io) == OKAY, "label-writer", fn + ": goes on only after a successful write", "%s goes on although a write may have failed" % fn, e.loc)
        ctx.need(nok and nerr, "label-writer", fn + ": both outcomes examined")
    k = next((x["key"] for x in ctx.j["bodies"] if "#promoted" not in x["key"] and x["path"].endswith("Escaper<W>::new")), None)
    if k:
        E = ctx.engine()
        for s, v in E.run(k, [S("arg", 0)]):
            v = E.deep(s, v)
            ctx.need(v[0] == "A" and v[3][err[4]] == ("A", "std::result::Result", 0, (("T", ()),)), "label-writer", "starts without failure")


def err_pc(E, s, v):
    v = E.deep(s, v)
    if v[0] == "A":
        return s if v[2] == 1 else None
    return E.restrict(s, ("var", v, 2), ("in", frozenset([1])))
