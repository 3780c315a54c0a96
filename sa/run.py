"""Abstract interpretation of the driver function `run`, with its big callees kept as uninterpreted terms."""
import os, pickle
from engine import Engine, S, pp, Incomplete
import inline
import q as Q

MODULAR = ("dot", "top", "dehash", "is_outlined_function", "wrapper::wrapper")


def modular(ctx, E):
    E.key_models[ctx.body("thumb::analyze")] = lambda E, st, c: ("T", tuple(S("an", i, *[E.deep(st, a) for a in c.args]) for i in range(5)))
    E.key_models[ctx.body("ir::parse")] = lambda E, st, c: S("irparse", *[E.deep(st, a) for a in c.args])

    def mk(n):
        def f(E, st, c):
            args = [E.deep(st, a) for a in c.args]
            E.ev(st, c.fr, "call", n, *args)
            return S(n, *args)
        return f
    for n in MODULAR:
        E.key_models[ctx.body(n)] = mk(n)
    # compatibility of signatures is symmetric (C07)
    for n in ("ir::FnSig::<'a>::loosely_equal",):
        if ctx.has(n):
            E.key_models[ctx.body(n)] = lambda E, st, c: S("loosely", *sorted([E.deep(st, a) for a in c.args], key=repr))


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "drop":
        return [t[2]]
    if k == "assert":
        return [t[3]]
    if k == "switch":
        return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == "call":
        return [t[4]] if t[4] is not None else []
    return []


class Ev:
    """an effect: kind, data, enclosing loops, the conditions under which it happens"""
    __slots__ = ("kind", "data", "loops", "pcs", "locs", "seq", "last")

    def __init__(self, e):
        self.kind, self.data, self.loops, self.pcs, self.locs, self.seq = e.kind, e.data, e.loops, [], set(), e.seq

    @property
    def loc(self):
        return sorted(map(str, self.locs))[0]

    @property
    def pc(self):
        return frozenset().union(*self.pcs)

    def __repr__(self):
        return "%s %s @%s" % (self.kind, pp(self.data), self.loc)


class Run:
    def __init__(self, ctx):
        inline.top_level(ctx.j)
        E = ctx.engine(True)
        E.elf_words = True
        self.E, self.ctx = E, ctx
        cache = os.environ.get("CCS_RUN_CACHE")
        if cache and os.path.exists(cache):
            with open(cache, "rb") as f:
                for k, v in pickle.load(f).items():
                    setattr(E, k, v)
        else:
            modular(ctx, E)
            outs = E.run(ctx.body("run"))
            E.outs = outs
            if cache:
                with open(cache, "wb") as f:
                    pickle.dump({k: getattr(E, k) for k in ("events", "phis", "loops", "colls", "phases", "ctxinfo", "alloc_loops", "outs", "incomplete", "opaque_calls", "stats")}, f)
        self.outs = E.outs
        d = {}
        for e in E.events:
            k = (e.kind, e.data, e.loops)
            if k not in d:
                d[k] = Ev(e)
            d[k].pcs.append(e.pc)
            d[k].locs.add(e.loc)
            d[k].last = e.seq
        self.evs = list(d.values())

    def find(self, kind, f=None, loop=None):
        return [e for e in self.evs if e.kind == kind and (f is None or f(*e.data)) and (loop is None or loop in e.loops)]

    # ------------------------------------------------------------ loops
    def backs(self, lid):
        out = []
        for l in self.E.loops.get(lid, []):
            for st in l["backs"]:
                out.append(st.pc)
        return out

    def counters(self, lid):
        """{source: position phi} of the iterations that drive the loop"""
        r = {}
        for pc in self.backs(lid):
            for c in pc:
                for a, v in c:
                    if a[0] == "b" and a[1][1] == "more" and v == ("in", frozenset([1])):
                        p = a[1][3]
                        if p[0] == "S" and p[1] == "phi" and p[2] == lid:
                            r.setdefault(a[1][2], set()).add(p)
        return r

    def whole(self, lid, src):
        """position of the loop's iteration over src when it starts at the first element and visits each in turn"""
        ps = self.counters(lid).get(src, ())
        if len(ps) != 1:
            return None
        p = next(iter(ps))
        ent = self.E.phis.get(p)
        step = S("add", *sorted((p, ("i", 1)), key=repr))
        if not ent or any(v != ("i", 0) for _, v in ent["init"]) or any(v not in (step, p) for _, v in ent["back"]):
            return None
        if any(v == p for _, v in ent["back"]):
            # the position may stay only while another source of the chain is being read
            for pc, v in ent["back"]:
                if v == p and any(self.E.decide(c, ("b", S("more", src, p))) == ("in", frozenset([1])) for c in pc):
                    return None
        return p

    def ended(self, conj, src, p):
        return self.E.decide(conj, ("b", S("more", src, p))) == ("in", frozenset([0]))

    def alive(self, key, blk):
        """a return can be reached from the block (it does not only lead to a panic)"""
        if not hasattr(self, "_alive"):
            self._alive = {}
        a = self._alive.get(key)
        if a is None:
            blocks = self.E.bodies[key]["blocks"]
            pred, work = {}, []
            for i, bb in enumerate(blocks):
                t = bb["t"]
                if t[0] == "ret":
                    work.append(i)
                for x in succs(t):
                    pred.setdefault(x, []).append(i)
            a = set(work)
            while work:
                for x in pred.get(work.pop(), ()):
                    if x not in a:
                        a.add(x)
                        work.append(x)
            self._alive[key] = a
        return blk in a

    def exits(self, lid):
        """path conditions of the ways out of the loop that do not end in a panic"""
        key = self.E.ctxinfo[lid][2]
        return [st.pc for l in self.E.loops.get(lid, []) for blk, st in l["exits"] if self.alive(key, blk)]

    def entries(self, lid):
        return [l["entry"].pc for l in self.E.loops.get(lid, [])]

    def before(self, lid):
        """path conditions with which a loop at the top level is reached"""
        t = self.toploops()
        return self.E.phases[t.index(lid)][3] if lid in t else self.entries(lid)

    def effects(self, m, allowed=()):
        """effects on the object m of other kinds than the allowed ones"""
        return [e for e in self.evs if e.kind == "mutate" and e.data[1] == m or e.data and e.data[0] == m and e.kind not in allowed and e.kind not in ("visit", "index", "panic", "call", "fmt", "write", "scc")]

    def changed(self, is_graph):
        """effects on a graph other than adding nodes and edges"""
        out = [e for e in self.evs if e.kind == "mutate" and is_graph(e.data[1]) or e.kind in ("mutcall", "clear", "remove") and is_graph(e.data[0])]
        return out + [e for e in self.evs if e.kind == "store" and (is_graph(e.data[0]) or is_s(e.data[0], "at") and is_graph(e.data[0][2]))]

    # ------------------------------------------------------------ phases
    def toploops(self):
        """loop id of each phase"""
        if not hasattr(self, "_top"):
            self._top = []
            for key, blk, loc, pcs, sts, n in self.E.phases:
                lid = next((l for l, k in self.E.ctxinfo.items() if k[1] == ("loop", blk) and k[2] == key), None)
                self._top.append(lid)
        return self._top

    def relphase(self, conj):
        """the last phase whose loop's exit is among the facts, or -1"""
        tops = self.toploops()
        best = -1

        def walk(x):
            nonlocal best
            if isinstance(x, tuple):
                if len(x) == 5 and x[0] == "S" and x[1] == "phi" and x[2] in tops:
                    best = max(best, tops.index(x[2]))
                for y in x:
                    walk(y)
        for a, v in conj:
            if a[0] == "b" and a[1][1] == "more":
                walk(a[1][3])
        return best

    def ok_outs(self):
        """path conditions of the successful ends of the run that are not the wrapper's"""
        out = []
        for st, v in self.outs:
            v = self.E.deep(st, v)
            if v[0] == "A" and v[2] == 0:
                out.append((st.pc, v))
            elif v[0] != "A":
                s = self.E.restrict(st, ("var", v, 2), ("in", frozenset([0])))
                if s is not None:
                    out.append((s.pc, v))
        return out

    def unavoidable(self, lid, excuse=lambda c: False):
        """every successful run executes the loop to its end -> None or a description of a bypass"""
        tops = self.toploops()
        if lid not in tops:
            return "loop %s is not at the top level of run" % lid
        k = tops.index(lid)
        for j in range(k + 1, len(tops)):
            for pc in self.E.phases[j][3]:
                for c in pc:
                    r = self.relphase(c)
                    if -1 < r < k and not excuse(c):
                        return "the loop at %s is reached without it" % self.E.phases[j][2]
        for pc, v in self.ok_outs():
            if v == S("Ok0") or not (v[0] == "A" and v[3] and v[3][0] == ("i", 0)):
                continue
            for c in pc:
                r = self.relphase(c)
                if -1 < r < k and not excuse(c):
                    return "the run ends without it"
        return None


# ------------------------------------------------------------------ roles
def fidx(ctx, adt, name, variant=0):
    a = ctx.j["adts"].get(adt)
    if a is None:
        raise Incomplete("type not found: " + adt)
    for i, f in enumerate(a["variants"][variant]["fields"]):
        if f == name:
            return i
    raise Incomplete("field not found: %s.%s" % (adt, name))


def vidx(ctx, adt, name):
    a = ctx.j["adts"].get(adt)
    if a is None:
        raise Incomplete("type not found: " + adt)
    for i, v in enumerate(a["variants"]):
        if v["name"] == name:
            return i
    raise Incomplete("variant not found: %s::%s" % (adt, name))


def is_s(t, op, n=None):
    return isinstance(t, tuple) and len(t) > 1 and t[0] == "S" and t[1] == op and (n is None or len(t) == n + 2)


def is_m(t):
    return isinstance(t, tuple) and len(t) == 3 and t[0] == "M"


def one(xs, what):
    xs = list(dict.fromkeys(xs))
    if len(xs) != 1:
        raise Incomplete("%s: %d candidates" % (what, len(xs)))
    return xs[0]


class Roles:
    """which containers and loops of `run` play which part, found by what flows into them"""

    def __init__(self, R):
        self.R, self.E, self.ctx = R, R.E, R.ctx
        ctx = self.ctx
        STMT, ITEM, DEF, DECL = "ir::define::Stmt", "ir::item::Item", "ir::define::Define", "ir::item::Declare"
        self.nstmt = len(ctx.j["adts"][STMT]["variants"])
        self.stmt_v = {v["name"]: i for i, v in enumerate(ctx.j["adts"][STMT]["variants"])}
        self.item_v = {v["name"]: i for i, v in enumerate(ctx.j["adts"][ITEM]["variants"])}
        self.node_f = {f: i for i, f in enumerate(ctx.j["adts"]["Node"]["variants"][0]["fields"])}
        self.local_v = {v["name"]: i for i, v in enumerate(ctx.j["adts"]["Local"]["variants"])}
        self.target_v = {v["name"]: i for i, v in enumerate(ctx.j["adts"]["Target"]["variants"])}
        # maps of definitions / declarations: what is inserted
        self.DEFINES = one([e.data[0] for e in R.find("insert", lambda m, k, v: self.payload_of(v, "Define"))], "map of definitions")
        self.DECLARES = one([e.data[0] for e in R.find("insert", lambda m, k, v: self.payload_of(v, "Declare"))], "map of declarations")
        # target kind
        T = [p for p, ent in self.E.phis.items() if ent["init"] and all(v[0] == "A" and v[1] == "Target" for _, v in ent["init"])]
        self.TARGET = one(T, "kind of target")
        # loop over the symbol table that creates the nodes
        nodes = [e for e in R.find("add_node") if e.loops and self.sym_src(e.loops[0]) is not None and self.node_fields(e.data[1])]
        if not nodes:
            raise Incomplete("creation of the function nodes not found")
        self.symloop = nodes[0].loops[0]
        self.G = one([e.data[0] for e in nodes], "graph")
        self.SYMS = self.sym_src(self.symloop)

    def payload_of(self, v, variant):
        """v is the payload of an Item of this variant"""
        return is_s(v, "f") and v[3:] == (self.item_v[variant], 0)

    def node_fields(self, v):
        if v[0] == "A" and v[1] == "Node":
            return {f: v[3][i] for f, i in self.node_f.items()}
        return None

    def is_defined(self, t, d=0):
        """the term is the map of the executable's symbols (with the thumb bit cleared or not)"""
        if d > 6 or not isinstance(t, tuple):
            return False
        if is_s(t, "f") and t[3:] == (0, fidx(self.ctx, "stack_sizes::Functions", "defined")) and self.is_exec(t[2]):
            return True
        if is_s(t, "phi"):
            ent = self.E.phis.get(t)
            return bool(ent) and bool(ent["init"]) and all(self.is_defined(v, d + 1) for _, v in ent["init"]) and not ent["back"]
        if is_m(t):
            ins = [e for e in self.R.find("insert") if e.data[0] == t]
            for e in ins:
                v = e.data[2]
                if not (is_s(v, "at") and self.is_defined(v[2], d + 1)):
                    return False
            return bool(ins)
        return False

    def is_exec(self, t):
        return is_s(t, "f") and t[3:] == (0, 0) and is_s(t[2], "call") and t[2][2] == "stack_sizes::analyze_executable"

    def is_undef(self, t):
        """the set of the executable's undefined symbols (with version strings or without)"""
        if is_s(t, "f") and t[3:] == (0, fidx(self.ctx, "stack_sizes::Functions", "undefined")) and self.is_exec(t[2]):
            return True
        if is_s(t, "phi"):
            ent = self.E.phis.get(t)
            return bool(ent) and bool(ent["init"]) and all(self.is_undef(v) for _, v in ent["init"])
        if is_m(t):
            ins = [e.data[1] for e in self.R.find("sins") if e.data[0] == t]
            return bool(ins) and all(Q.contains(v, lambda x: is_s(x, "elem", 2) and self.is_undef(x[2])) for v in ins)
        return False

    def sym_src(self, lid):
        """map of symbols the loop iterates over"""
        for src in self.R.counters(lid):
            if is_s(src, "kv") and self.is_defined(src[2]):
                return src[2]
        return None

    # ---- maps found by use
    def setup_maps(self):
        R, E = self.R, self.E
        L = self.symloop
        ins = [e for e in R.find("insert") if L in e.loops]
        nn = {e.data[2] for e in R.find("add_node") if L in e.loops and e.data[0] == self.G}
        self.INDICES = one([e.data[0] for e in ins if e.data[2] in nn], "map from names to nodes")
        p = R.whole(L, S("kv", self.SYMS, *self.kvver(L)))
        self.sympos = p
        addr = S("key", self.SYMS, p)
        self.ADDR2NAME = one([e.data[0] for e in ins if e.data[1] == addr], "map from addresses to names")
        self.ALIASES = one([e.data[0] for e in ins if len(e.loops) > 1 and e.data[0] not in (self.INDICES, self.ADDR2NAME)
                            and e.data[1][0] == "S" and Q.contains(e.data[1], lambda t: is_s(t, "names"))], "map of aliases")

    def kvver(self, lid):
        for src in self.R.counters(lid):
            if is_s(src, "kv") and src[2] == self.SYMS:
                return src[3:]
        return ()

    # ---- target
    def thumb(self, q):
        v = q(("var", self.TARGET, len(self.target_v)))
        return v != self.target_v["Other"]


def intact(ctx, R, W, rule="graph"):
    """the call graph changes only by adding nodes and edges and setting figures"""
    from props.propagate import Graphs
    G = Graphs(ctx, R, W)
    bad = R.changed(lambda g: g == W.G or is_m(g) and g[1] == "Graph" or is_s(g, "phi") and G.graph(g))
    ctx.need(not bad, rule, "only grows", "the call graph is changed otherwise (%s)" % (bad and bad[0]), bad and bad[0].loc)
