"""How the program is built (C20) and which artefacts of that build are analysed (C24)."""
import re
from engine import S, pp, Incomplete, some, NONE
import q as Q
from q import b, var
from run import Run, Roles, is_s, is_m, one, fidx, vidx
from props.edges import YES, NO

THUMB = {"thumbv6m-none-eabi": "Thumbv6m", "thumbv7m-none-eabi": "Thumbv7m", "thumbv7em-none-eabi": "Thumbv7m", "thumbv7em-none-eabihf": "Thumbv7m"}
LIMIT = 4000


def lit(t):
    """text of a literal"""
    if isinstance(t, str):
        return t
    if isinstance(t, tuple) and len(t) == 2 and t[0] == "s" and isinstance(t[1], str):
        return t[1]
    return None


def lits(t):
    """literals in a term"""
    out = []
    if isinstance(t, tuple) and t:
        if lit(t) is not None:
            return [t[1]]
        for x in (t[2:] if t[0] == "S" else t[1:]):
            if isinstance(x, str):
                if t[0] == "S":
                    out.append(x)
            else:
                out += lits(x)
    return out


class Build:
    def __init__(self, ctx):
        self.ctx = ctx
        self.R = R = Run(ctx)
        self.E = E = R.E
        A = one([a for a in ctx.j["adts"] if a.endswith("Args") and any("all_features" in v["fields"] for v in ctx.j["adts"][a]["variants"])], "type of the command line")
        parse = [e.data for e in R.find("call") if isinstance(e.data[0], str) and e.data[0].startswith("clap::") and e.data[0].endswith("parse")]
        if not parse:
            raise Incomplete("the command line is not parsed")
        self.args = self.find_args()
        self.opt = {n: S("f", self.args, 0, fidx(ctx, A, n)) for n in ("target", "bin", "example", "features", "all_features", "verbose")}
        self.has = {n: var(self.opt[n]) for n in ("target", "bin", "example", "features")}
        self.get = {n: S("f", self.opt[n], 1, 0) for n in self.has}
        self.phasepos = {}

    def find_args(self):
        ts = set()
        for e in self.R.evs:
            for c in e.pc:
                for a, v in c:
                    for t in Q.subterms(a[1]):
                        if is_s(t, "call") and "Parser::parse" in str(t[2]):
                            ts.add(t)
        return one(sorted(ts, key=repr), "command line")

    # ------------------------------------------------------------ context of events
    def last(self, conj):
        """the last phase that anything in the facts stems from"""
        tops = self.R.toploops()
        r = -1
        for a, v in conj:
            for t in Q.subterms(a[1]):
                if is_s(t, "phi"):
                    if t[2] in tops:
                        r = max(r, tops.index(t[2]))
                    elif isinstance(t[2], tuple) and t[2][0] == "phase":
                        r = max(r, t[2][1])
        return r

    def facts(self, pc, A, low=-1, at=None):
        """what the paths know about the atoms, including what was known when the enclosing phase was reached"""
        E = self.E
        if not hasattr(self, "_facts"):
            self._facts = {}
        out = set()
        for c in pc:
            here = frozenset((a, E.decide(c, a)) for a in A if E.decide(c, a) is not None)
            if len(here) == len(A) == 1:
                out.add(here)
                continue
            r = max(self.last(c), low)
            if at is not None and (r >= at or r < 0 and at and not any("env::var" in str(a[1][2]) for a, v in c if is_s(a[1], "call"))):
                r = at - 1
            if r < 0:
                out.add(here)
                continue
            k = (r, A)
            if k not in self._facts:
                self._facts[k] = self.facts(frozenset().union(*self.R.E.phases[r][3]), A, -1, r)
            for d in self._facts[k]:
                m = Q.merge(E, here, d)
                if m is not None:
                    out.add(frozenset(x for x in m if x[0] in A))
        return out

    def before(self, e, A):
        tops = self.R.toploops()
        k = tops.index(e.loops[0]) if e.loops and e.loops[0] in tops else -1
        return self.facts(e.pc, A, max(k, self.last([(("x", x), None) for x in e.data if isinstance(x, tuple)])))

    def full(self, pc, at=None, low=None):
        """path conditions extended by those with which the enclosing phase was reached"""
        out = []
        for c in pc:
            r = self.last(c) if low is None else max(self.last(c), low)
            if at is not None and r >= at:
                r = at - 1
            if r < 0 and at and not any("env::var" in str(a[1][2]) for a, v in c if is_s(a[1], "call")):
                r = at - 1
            if r < 0:
                out.append(c)
                continue
            for c0 in self.entry(r):
                m = Q.merge(self.E, c, c0)
                if m is not None:
                    out.append(m)
            if len(out) > LIMIT:
                raise Incomplete("too many paths")
        return list(dict.fromkeys(out))

    def entry(self, r):
        if not hasattr(self, "_entry"):
            self._entry = {}
        if r not in self._entry:
            self._entry[r] = []
            self._entry[r] = self.full(frozenset().union(*self.R.E.phases[r][3]), r)
        return self._entry[r]

    def vals(self, t, conj=None, d=0):
        """possible values of a term merged at the start of a phase"""
        ent = self.E.phis.get(t)
        if not (is_s(t, "phi") and isinstance(t[2], tuple) and t[2][0] == "phase" and ent) or d > 20:
            return {t}
        out = set()
        for pc, v in ent["init"]:
            if conj is not None and not any(Q.merge(self.E, c, conj) is not None for c in self.full(pc)):
                continue
            out |= self.vals(v, conj, d + 1)
        return out

    def always(self, conjs, atom, v):
        """-> a conjunction where the fact is not known, or None"""
        for c in conjs:
            if self.E.decide(c, atom) != v:
                return c
        return None


def atoms(conjs, f):
    return sorted({a for c in conjs for a, v in c if f(a)}, key=repr)


# ====================================================================== C20
def invocation(ctx):
    B = Build(ctx)
    R, E = B.R, B.E
    cargo = one([e.data[0] for e in R.find("cmd-new", lambda m, n: lit(n) == "cargo")], "the build command")
    runs = [e for e in R.find("cmd-run") if e.data[0] == cargo]
    if len({e.data[1] for e in runs}) != 1 or len(runs) != 1 or runs[0].loops:
        raise Incomplete("start of the build: %r" % (runs,))
    start = runs[0]
    reach = B.full(start.pc)
    if not reach:
        raise Incomplete("the build is never started")
    ctx.ok("build", "%d paths lead to the start of the build" % len(reach))
    gate(ctx, B, reach)
    selection(ctx, B, reach)
    command_line(ctx, B, cargo, start, reach)
    target(ctx, B, reach)
    outcome(ctx, B, start)
    main_exit(ctx)


def gate(ctx, B, reach):
    """unsupported toolchains are refused unless overridden"""
    E = B.E
    for c in reach:
        ok = False
        for a, v in c:
            if v != YES or a[0] != "b" or not is_s(a[1], "seq"):
                continue
            for t, l in ((a[1][2], lit(a[1][3])),):
                if l is None:
                    continue
                calls = [s for s in Q.subterms(t) if is_s(s, "call")]
                if any("version_meta" in str(s[2]) for s in calls) and re.fullmatch("[0-9a-f]{40}", l):
                    ok = True
                if any("env::var" in str(s[2]) for s in calls) and l:
                    ok = True
        if not ctx.need(ok, "gate", "toolchain checked", "the build is started although the toolchain is unsupported and not overridden, when %s" % Q.show(c), key="gate/refused"):
            return
    errs = [(st, E.deep(st, v)) for st, v in R_outs(B)]
    for st, v in errs:
        if v[0] == "A" and v[2] == 1 and is_s(v[3][0], "error") and "toolchain" in repr(v[3][0]):
            for c in st.pc:
                for a, val in c:
                    if val == YES and a[0] == "b" and is_s(a[1], "seq") and ("version_meta" in repr(a[1]) or "env::var" in repr(a[1])):
                        ctx.violate("gate/supported", "a supported or overridden toolchain is refused when %s" % Q.show(c))
    ctx.ok("gate", "the refusal needs an unsupported toolchain")


def R_outs(B):
    return B.R.outs


def selection(ctx, B, reach):
    """exactly one of binary and example"""
    E = B.E
    for c in reach:
        e, n = E.decide(c, B.has["example"]), E.decide(c, B.has["bin"])
        ok = (e, n) in ((YES, NO), (NO, YES))
        if not ctx.need(ok, "selection", "one of binary and example", "the build is started without exactly one of --bin and --example, when %s" % Q.show(c), key="selection/one"):
            return
    for x, y in ((YES, YES), (NO, NO)):
        F = frozenset([(B.has["example"], x), (B.has["bin"], y)])
        for st, v in R_outs(B):
            v = E.deep(st, v)
            if v[0] == "A" and v[2] == 0 and any(Q.merge(E, c, F) is not None for c in B.facts(st.pc, (B.has["example"], B.has["bin"]))):
                ctx.violate("selection/error", "naming %s of binary and example is no error" % ("both" if x == YES else "neither"))
    for x, y in ((YES, NO), (NO, YES)):
        F = frozenset([(B.has["example"], x), (B.has["bin"], y)])
        if not any(Q.merge(E, c, F) is not None for c in reach):
            ctx.violate("selection/possible", "the build is never started for %s" % ("an example" if x == YES else "a binary"))
        for st, v in R_outs(B):
            v = E.deep(st, v)
            if v[0] == "A" and v[2] == 1 and is_s(v[3][0], "error") and "specify" in repr(v[3][0]) and Q.meets(E, st.pc, F):
                ctx.violate("selection/refused", "a proper selection is refused")
    ctx.ok("selection", "neither and both are errors")


def worlds(E, conjs, evs):
    """splits the paths until for each raw event it is known whether it happens -> [(conj, [events])]"""
    out = []
    work = list(conjs)
    seen = set()
    while work:
        c = work.pop()
        if c in seen:
            continue
        seen.add(c)
        if len(seen) > 20000:
            raise Incomplete("too many cases")
        here, split = [], None
        for e in evs:
            st = False
            for d in e.pc:
                todo = [(a, v) for a, v in d if not Q.implied(E.decide(c, a) or ("not", frozenset()), v)]
                if not todo:
                    st = True
                    break
                if Q.merge(E, c, d) is not None:
                    split = todo[0]
            if split is not None and not st:
                break
            split = None
            if st:
                here.append(e)
        if split is None:
            out.append((c, here))
            continue
        a, v = split
        neg = ("in", frozenset(range(Q.dom(a))) - v[1]) if Q.dom(a) and v[0] == "in" else ("not", v[1]) if v[0] == "in" else ("in", v[1])
        for w in (v, neg):
            x = Q.add(E, c, a, w)
            if x is not None:
                work.append(x)
    return out


def command_line(ctx, B, cargo, start, reach):
    E, R = B.E, B.R
    raw = [e for e in E.events if e.kind == "cmd" and e.data[0] == cargo]
    for e in raw:
        if e.loops:
            raise Incomplete("build options are added in a loop: %s" % e.loc)
        if e.seq > start.last:
            ctx.violate("options/late", "the build command is changed after the build was started", e.loc)
    changed = [e for e in E.events if e.kind in ("mutate", "mutcall") and cargo in (e.data[0], e.data[1]) and e.data[0] != "cmd"]
    for e in changed:
        ctx.violate("options/changed", "the build command is changed in a way that is not understood: %s" % pp(e.data)[:120], e.loc)
    base = []
    for c in reach:
        cs = [c]
        for a in list(B.has.values()) + [b(B.opt["all_features"])]:
            cs = [x for y in cs for x in (Q.add(E, y, a, YES), Q.add(E, y, a, NO)) if x is not None]
        base += cs
    ws = worlds(E, base, raw)
    ctx.ok("options", "%d cases of the command line, %d option events" % (len(ws), len(raw)))
    nostd = NoStd(B)
    for c, evs in ws:
        if not one_case(ctx, B, c, evs, nostd):
            return


def one_case(ctx, B, c, evs, nostd):
    E = B.E
    bad = lambda k, m: (ctx.violate("options/" + k, "%s, when %s" % (m, Q.show(frozenset(x for x in c if any(is_s(t, "f") and t[2] == B.args for t in Q.subterms(x[0][1])))))), False)[1]
    given = lambda n: E.decide(c, B.has[n]) == YES
    argv, env, stderr = [], {}, []
    for e in sorted(evs, key=lambda e: e.seq):
        op = e.data[1]
        if op == "arg":
            argv.append(e.data[2])
        elif op == "env":
            env[lit(e.data[2])] = e.data[3]
        elif op == "stderr":
            stderr.append(e.data[2])
        elif op == "args":
            return bad("args", "options that are not understood are passed: %s" % pp(e.data[2])[:80])
        else:
            return bad(op, "the environment of the build is changed: %s" % op)
    # ---- options
    val = lambda t: one_of(B.vals(t, c))
    txt = [lit(x) for x in argv]
    if not argv or txt[0] != "rustc":
        return bad("rustc", "cargo is not asked to run rustc")
    if txt.count("--") != 1:
        return bad("separator", "options for cargo and rustc are not separated")
    k = txt.index("--")
    want = {}
    if given("target"):
        want["--target"] = B.get["target"]
    allf = E.decide(c, b(B.opt["all_features"])) == YES
    if given("features"):
        want["--features"] = B.get["features"]
    if given("example"):
        want["--example"] = B.get["example"]
    if given("bin"):
        want["--bin"] = B.get["bin"]
    opts = [(argv[i], txt[i]) for i in range(1, k)]
    i, got, std, release = 0, {}, [], False
    flags = set()
    while i < len(opts):
        t, l = opts[i]
        o, v = l, None
        if is_s(t, "cat") or (l is None):
            m = split_eq(t)
            if m is None:
                return bad("unknown", "an option is passed that was not asked for: %s" % pp(t)[:80])
            o, v = m
        elif l in ("--target", "--features", "--example", "--bin"):
            if i + 1 >= len(opts):
                return bad("value", "%s has no value" % l)
            i += 1
            v = opts[i][0]
        elif l == "-Z" and i + 1 < len(opts) and opts[i + 1][1] is not None:
            i += 1
            o = "-Z" + opts[i][1]
        i += 1
        if v is not None:
            if o in got:
                return bad(o, "%s is given twice" % o)
            got[o] = val(v)
            continue
        if o == "--release" or o == "-r":
            release = True
        elif o == "--all-features":
            flags.add(o)
        elif o.startswith("-Zbuild-std"):
            std.append(o)
        elif o.startswith("--color=") or o in ("--quiet", "-v", "--verbose", "-q"):
            pass
        else:
            return bad("unknown", "an option is passed that was not asked for: %s" % o)
    if allf and "--features" in got and given("features"):
        del got["--features"]
    if allf:
        want.pop("--features", None)
    for o in sorted(set(want) | set(got)):
        if want.get(o) != got.get(o):
            return bad(o, "%s is %s, expected %s" % (o, pp(got[o])[:60] if o in got else "missing", pp(want[o])[:60] if o in want else "none"))
    if ("--all-features" in flags) != allf:
        return bad("all-features", "--all-features is %s" % ("missing" if allf else "passed"))
    if not release:
        return bad("release", "the program is not built in release mode")
    if len(std) != 1:
        return bad("build-std", "the standard library is not built")
    ns = nostd.decide(c)
    if ns is None:
        return bad("build-std", "it is not known whether the target has a standard library")
    crates = set(std[0].partition("=")[2].split(",")) - {""}
    if ns and not ({"core", "compiler_builtins"} <= crates and crates <= {"core", "alloc", "compiler_builtins"}):
        return bad("build-std", "%s is used for a target without operating system" % std[0])
    if not ns and crates and not {"std"} <= crates:
        return bad("build-std", "%s is used for a target with operating system" % std[0])
    # ---- flags of rustc
    fl, i = [], k + 1
    while i < len(argv):
        l = txt[i]
        if l is None:
            return bad("flags", "a flag of the compiler is not understood: %s" % pp(argv[i])[:80])
        if l in ("-C", "--emit", "--codegen") and i + 1 < len(argv):
            i += 1
            l = ("-C" if l != "--emit" else "--emit=") + str(txt[i])
        fl.append(l.replace("-C ", "-C"))
        i += 1
    emit = {x for f in fl if f.startswith("--emit=") for x in f[7:].split(",")}
    if not {"llvm-ir", "obj"} <= emit:
        return bad("emit", "intermediate code and object file are not requested")
    if "-Cembed-bitcode=yes" not in fl and "-Cembed-bitcode" not in fl:
        return bad("bitcode", "-C embed-bitcode=yes is missing")
    if "-Clto=fat" not in fl and "-Clto" not in fl and "-Clto=yes" not in fl:
        return bad("lto", "-C lto=fat is missing")
    extra = [f for f in fl if not f.startswith("--emit=") and not re.match("-C(embed-bitcode|lto)", f)]
    if extra:
        return bad("flags", "unexpected compiler flags %s" % extra)
    # ---- environment
    w = env.pop("RUSTC_WRAPPER", None)
    if not (w is not None and is_s(w, "f") and is_s(w[2], "call") and "current_exe" in str(w[2][2])):
        return bad("wrapper", "the tool is not used as compiler wrapper")
    mark = {lit(a[1][3]) for st, v in B.R.outs if "wrapper" in repr(B.E.deep(st, v))[:80] for d in st.pc for a, x in d if is_s(a[1], "call") and "var_os" in str(a[1][2])}
    for m in mark:
        if env.pop(m, None) is None:
            return bad("marker", "the build is not told to use the wrapper")
    if not mark:
        raise Incomplete("entry of the wrapper not found")
    if env:
        return bad("env", "unexpected environment variables %s" % sorted(map(str, env)))
    if not (len(stderr) >= 1 and "piped" in repr(stderr[-1])):
        return bad("stderr", "the messages of the build are not read")
    ctx.ok("options", " ".join(x if x is not None else pp(y)[-24:] for x, y in zip(txt, argv)))
    return True


def one_of(vs):
    return next(iter(vs)) if len(vs) == 1 else S("one-of", *sorted(vs, key=repr))


def split_eq(t):
    """--option=value"""
    if is_s(t, "cat") and len(t) == 4:
        h, v = t[2], t[3]
        if lit(h) and lit(h).endswith("="):
            return lit(h)[:-1], v[2] if is_s(v, "disp") else v
    return None


class NoStd:
    """whether a path knows that rustc reports target_os="none" """

    def __init__(self, B):
        self.B, E, R = B, B.E, B.R
        self.m = one([e.data[0] for e in R.find("cmd-new", lambda m, n: lit(n) == "rustc")], "query of the target")
        self.line = set()
        self.cache = {}

    def lines(self, t):
        """the term is (derived from) the output of the query"""
        return any(is_s(x, "output") and x[2] == self.m for x in Q.subterms(t))

    def match(self, c):
        """facts on a line: True (it is target_os="none"), False (it is not), None"""
        E = self.B.E
        whole = 'target_os="none"'
        res = None
        for a, v in c:
            t = a[1]
            if not self.lines(t) or v not in (YES, NO):
                continue
            pre = None
            if a[0] == "b" and is_s(t, "seq"):
                x, l = t[2], lit(t[3])
                cut = 0
                while is_s(x, "sub") and isinstance(x[3], (int, tuple)):
                    k = x[3] if isinstance(x[3], int) else x[3][1] if x[3][0] == "i" else None
                    if k is None or lit(x[4]) or x[4] not in (None, ("i", None)):
                        break
                    cut, x = cut + k, x[2]
                if self.base(x) and l is not None and l == whole[cut:]:
                    if v == NO:
                        return False if True else None
                    if cut == 0:
                        return True
                    # the part cut off must be known
                    return True if any(z == YES and is_s(y[1], "pre") and self.base(y[1][2]) and lit(y[1][3]) == whole[:cut] for y, z in c) else None
            if a[0] == "b" and is_s(t, "pre") and v == NO and self.base(t[2]) and whole.startswith(str(lit(t[3]))):
                res = False
        return res

    def base(self, t):
        """the line itself"""
        while is_s(t, "f") and t[3:] == (0, 0):
            t = t[2]
        return is_s(t, "elem") and self.lines(t[2])

    def decide(self, c):
        E = self.B.E
        # a flag computed by the loop over the lines
        for a, v in sorted(c, key=repr):
            t = a[1]
            if a[0] == "b" and is_s(t, "phi") and v in (YES, NO) and self.flag(t):
                return v == YES
            if a[0] == "b" and is_s(t, "phi") and isinstance(t[2], tuple) and v in (YES, NO):
                vs = self.B.vals(t, None)
                if len(vs) == 1 and self.flag(next(iter(vs))):
                    return v == YES
        m = self.match(c)
        if m is True:
            return True
        for a, v in c:
            if a[0] == "b" and is_s(a[1], "more") and self.lines(a[1][2]) and v == NO and is_s(a[1][3], "phi"):
                lid = a[1][3][2]
                if all(self.match(x) is False for pc in self.B.R.backs(lid) for x in pc):
                    return False
        return None

    def flag(self, t):
        if t not in self.cache:
            ent = self.B.E.phis.get(t)
            ok = bool(ent) and isinstance(t[2], int) and all(v == ("i", 0) for _, v in ent["init"])
            n = 0
            for pc, v in (ent["back"] if ok else ()):
                for x in pc:
                    m = self.match(x)
                    if v == ("i", 1):
                        n += 1
                        ok = ok and m is True
                    elif v == t:
                        # once set it stays; a matching line must set it
                        ok = ok and (m is False or self.B.E.decide(x, b(t)) == YES)
                    else:
                        ok = False
            self.cache[t] = ok and n > 0
            if self.cache[t]:
                lid = t[2]
                src = [s for s in self.B.R.counters(lid) if self.lines(s)]
                p = self.B.R.whole(lid, src[0]) if len(src) == 1 else None
                if p is None:
                    self.cache[t] = False
                for pc in self.B.R.exits(lid):
                    for x in pc:
                        if p is None or not (self.B.R.ended(x, src[0], p) or self.B.E.decide(x, b(t)) == YES or self.match(x) is True or self.failed(x, p)):
                            self.cache[t] = False
        return self.cache[t]

    def failed(self, x, p):
        return any(a[0] == "var" and is_s(a[1], "elem") and v == YES for a, v in x)


def target(ctx, B, reach):
    """the analysis assumes the target that is built"""
    E, R = B.E, B.R
    proj, host = None, None
    for e in R.find("call"):
        if str(e.data[0]).endswith("Project::target"):
            proj = next((t for x in R.evs for c in list(x.pc) for a, v in c for t in Q.subterms(a[1]) if is_s(t, "call") and str(t[2]).endswith("Project::target")), None)

    def right(t, c):
        """the term is the target in effect"""
        if E.decide(c, B.has["target"]) == YES:
            return t == B.get["target"]
        if E.decide(c, B.has["target"]) != NO:
            return None
        if is_s(t, "f") and is_s(t[2], "call") and str(t[2][2]).endswith("Project::target"):
            return E.decide(c, var(t[2])) == YES
        if is_s(t, "f") and any(is_s(x, "call") and "version_meta" in str(x[2]) for x in Q.subterms(t)):
            return proj is not None and E.decide(c, var(proj)) == NO
        return False

    def need(t, conjs, what):
        n = 0
        for c in conjs:
            for d in (Q.add(E, c, B.has["target"], YES), Q.add(E, c, B.has["target"], NO)):
                if d is None:
                    continue
                for e in ((d,) if proj is None or E.decide(d, B.has["target"]) == YES else [x for x in (Q.add(E, d, var(proj), YES), Q.add(E, d, var(proj), NO)) if x is not None]):
                    for v in vals_at(t, e):
                        n += 1
                        if not right(v, e):
                            ctx.violate("target/" + what, "%s assumes the target %s although it is not the one built, when %s" % (
                                what, pp(v)[:80], Q.show(frozenset(x for x in e if x[0] in (B.has["target"], var(proj) if proj else None)))))
                            return
        ctx.need(n > 0, "target", "%s uses the target that is built (%d cases)" % (what, n))

    def vals_at(t, c):
        return B.vals(t, c)

    m = one([e.data[0] for e in R.find("cmd-new", lambda m, n: lit(n) == "rustc")], "query of the target")
    raw = [e for e in E.events if e.kind == "cmd" and e.data[0] == m and e.data[1] == "arg"]
    for e in raw:
        if lit(e.data[2]) is None:
            t = split_eq(e.data[2])
            need(t[1] if t else e.data[2], B.full(e.pc), "the query of the target's properties")
    if not any(lit(e.data[2]) is None for e in raw) or not any(str(lit(e.data[2])).startswith("--target") or split_eq(e.data[2]) for e in raw) or not any("cfg" in str(lit(e.data[2])) for e in raw):
        ctx.violate("target/query", "the properties of the target are not asked for")
    # the decision how machine code is read
    W = Roles(R)
    names = {i: n for n, i in W.target_v.items()}
    ent = E.phis[W.TARGET]
    pos = {}
    for pc, v in ent["init"]:
        for c in pc:
            yes, no = [], set()
            for a, x in c:
                if a[0] == "b" and is_s(a[1], "seq"):
                    s, t = lit(a[1][3]), a[1][2]
                    if s is None or not (s in THUMB or s.count("-") >= 2):
                        continue
                    pos.setdefault(t, []).append(c)
                    if x == YES:
                        yes.append(s)
                    else:
                        no.add(s)
            kind = names.get(v[2])
            if yes:
                exp = THUMB.get(yes[0])
                ok = kind == exp if exp else (kind == "Other" or yes[0].startswith("thumb"))
                ctx.need(ok, "target", "%s is treated as %s" % (yes[0], kind), "the target %s is treated as %s" % (yes[0], kind), key="target/kind/" + yes[0])
            else:
                ctx.need(kind == "Other" and set(THUMB) <= no, "target", "other targets", "a target is treated as %s when it is none of %s" % (kind, sorted(no)), key="target/kind/other")
    seen = {s for s in THUMB if any(s in lits(a[1]) for pc, v in ent["init"] for c in pc for a, x in c)}
    for s in sorted(set(THUMB) - seen):
        ctx.violate("target/kind/" + s, "the target %s is not recognised" % s)
    for t, cs in pos.items():
        for c in cs:
            need(t, B.full(frozenset([c])), "the reading of machine code")
            if any(k.startswith("target/the reading") for k, _, _ in ctx.bad):
                return


def outcome(ctx, B, start):
    """messages are passed on; a failed build ends the run with its exit code"""
    R, E = B.R, B.E
    ch = S(start.data[1], start.data[0])
    # status of the build
    stat = {t for e in R.evs for c in e.pc for a, v in c for t in [a[1]] if is_s(t, "success")}
    stat |= {t for st, v in R.outs for c in st.pc for a, v2 in c for t in [a[1]] if is_s(t, "success")}
    stat = [t for t in stat if ch in set(Q.subterms(t))]
    ok = one(sorted(stat, key=repr), "outcome of the build")
    code = S("exitcode", ok[2])
    # nothing is analysed after a failure
    late = [e for e in R.evs if e.kind in ("call", "add_node", "add_edge", "write", "insert", "cmd-new") and e.last > start.last and e.kind != "eprint"]
    n = 0
    for e in late:
        if e.kind == "call" and (not any(x in str(e.data[0]) for x in ("fs::", "analyze", "Elf", "ar::", "dot", "top", "Project::path"))):
            continue
        for c in B.before(e, (b(ok),)):
            n += 1
            if E.decide(c, b(ok)) != YES:
                ctx.violate("failure/analysis", "%s happens although the build may have failed" % (pp(e.data)[:80] if e.kind == "call" else e.kind), e.loc)
                break
        if ctx.bad:
            break
    ctx.need(n > 0, "failure", "%d effects follow a successful build only" % n)
    outs = []
    for st, v in R.outs:
        v = E.deep(st, v)
        for c in st.pc:
            f = Q.add(E, c, b(ok), NO)
            if f is not None and E.decide(c, b(ok)) == NO:
                outs.append((f, v))
            elif f is not None and v[0] == "A" and v[2] == 0 and v[3][0] == ("i", 0):
                if any(E.decide(g, b(ok)) != YES for g in B.facts(frozenset([c]), (b(ok),))):
                    ctx.violate("failure/success", "success is reported although the build may have failed, when %s" % Q.show(f))
    ctx.need(bool(outs), "failure", "a failed build ends the run", "a failed build does not end the run")
    for c, v in outs:
        k = E.decide(c, var(code))
        want = S("f", code, 1, 0) if k == YES else None
        if k == YES:
            ctx.need(v == ("A", v[1], 0, (want,)), "failure", "exit code of the build", "a failed build ends with %s instead of its exit code" % pp(v)[:80], key="failure/code")
        elif k == NO:
            good = v[0] == "A" and v[2] == 0 and v[3][0][0] == "i" and v[3][0][1] != 0
            good = good or v[0] == "A" and v[2] == 1
            ctx.need(good, "failure", "exit code of a killed build", "a build that was killed is reported as %s" % pp(v)[:80], key="failure/killed")
        elif v[0] == "A" and v[2] == 0:
            good = is_s(v[3][0], "unwrapor") and v[3][0][2] == code
            ctx.need(good, "failure", "exit code", "a failed build ends with %s" % pp(v)[:80], key="failure/code")
    # messages
    loops = []
    for lid in E.loops:
        for s in R.counters(lid):
            if is_s(s, "lines") and ch in set(Q.subterms(s)):
                loops.append((lid, s))
    if len(loops) != 1:
        raise Incomplete("loop over the messages of the build: %d" % len(loops))
    lid, src = loops[0]
    p = R.whole(lid, src)
    if not ctx.need(p is not None, "messages", "all messages are read", key="messages/all"):
        return
    el = S("elem", src, p)
    for pc in R.exits(lid):
        for c in pc:
            if not (R.ended(c, src, p) or E.decide(c, var(el)) == YES):
                ctx.violate("messages/all", "reading the messages of the build stops early when %s" % Q.show(c))
    text = S("f", el, 0, 0)
    marks = markers(ctx)
    pr = [e for e in R.find("eprint") if lid in e.loops]
    shown = [e for e in pr if [x for x in e.data[0][1] if lit(x) != "\n"] in ([S("disp", text)], [text])]
    for e in pr:
        if e not in shown:
            ctx.violate("messages/other", "something else than the message is printed: %s" % pp(e.data)[:100], e.loc)
    for pc in R.backs(lid):
        F = frozenset([(b(S("more", src, p)), YES), (var(el), NO)] + [(b(S("pre", text, m)), NO) for m in marks])
        r = Q.cover(E, pc, [e.pc for e in shown], F)
        if r is not None:
            ctx.violate("messages/dropped", "a message of the compiler is not passed on when %s" % Q.show(r))
            break
    else:
        ctx.ok("messages", "every line that is no report of the wrapper is printed")


def markers(ctx):
    ms = set()
    for b0 in ctx.j["bodies"]:
        for s in re.findall(r"@CARGO_CALL_STACK:[a-z_]+@", str(b0)):
            ms.add(s)
    if len(ms) != 2:
        raise Incomplete("report markers: %s" % sorted(ms))
    return sorted(ms)


def main_exit(ctx):
    """the exit code of the process"""
    E = ctx.engine()
    key = ctx.body("run")
    E.key_models[key] = lambda E, st, c: S("outcome")
    outs = E.run(ctx.body("main"))
    t = S("outcome")
    ex = [e for e in E.events if e.kind == "exit"]
    F0, F1 = frozenset([(var(t), NO)]), frozenset([(var(t), YES)])
    for F, what in ((F0, "success"), (F1, "failure")):
        for st, v in outs:
            if Q.meets(E, st.pc, F):
                r = E.deep(st, v)
                if what == "success" or not (r[0] == "A" and r[2] == 1 or is_s(r, "outcome")):
                    ctx.violate("main/exit", "%s of the run does not set the exit code" % what)
    for e in ex:
        if Q.meets(E, e.pc, F0):
            ctx.need(e.data[0] == S("f", t, 0, 0), "main", "the run's code is the exit code", "the process exits with %s instead of the run's code" % pp(e.data[0])[:60], e.loc, key="main/code")
        if Q.meets(E, e.pc, F1):
            k = e.data[0]
            ctx.need(k[0] == "i" and k[1] % 256 != 0, "main", "an error exits with a non-zero code", "an error exits with code %s" % pp(k)[:60], e.loc, key="main/error")
            ctx.need(any("outcome" in repr(x.data) for x in E.events if x.kind == "eprint"), "main", "the error is reported", key="main/report")
    ctx.need(bool(ex) or True, "main", "exit")


# ====================================================================== C24
def is_call(t, *names):
    return is_s(t, "call") and any(str(t[2]).endswith(n) for n in names)


def okof(t, *names):
    """payload of a successful call -> the call"""
    if is_s(t, "f") and t[3:] == (0, 0) and is_call(t[2], *names):
        return t[2]
    return None


def artifacts(ctx):
    B = Build(ctx)
    R, E = B.R, B.E
    executable(ctx, B)
    ll = app_module(ctx, B)
    reported(ctx, B)
    app_object(ctx, B, ll)


def cases(B, conjs, A):
    """the facts split until every given atom is decided"""
    out = []
    for c in conjs:
        cs = [c]
        for a in A:
            cs = [x for y in cs for x in (Q.add(B.E, y, a, YES), Q.add(B.E, y, a, NO)) if x is not None]
        out += cs
    return out


def is_file(B, t, c):
    """the term is the name given by --example or --bin"""
    w = "example" if B.E.decide(c, B.has["example"]) == YES else "bin"
    return t == B.get[w]


def elf_path(B, t, c):
    """-> message when the path is not that of the requested program"""
    E = B.E
    k = okof(t, "Project::path")
    if k is None:
        return "the file %s is read" % pp(t)[:80]
    proj, art, prof, tgt, host = k[3:8]
    if art[0] != "A" or len(art[3]) != 1:
        return "the artefact is not known: %s" % pp(art)[:60]
    want = 1 if E.decide(c, B.has["example"]) == YES else 0
    if art[2] != want:
        return "the %s is read although the other was requested" % ("example" if art[2] else "binary")
    for v in B.vals(art[3][0], c):
        if not is_file(B, v, c):
            return "the artefact's name is %s" % pp(v)[:60]
    if not (prof[0] == "A" and prof[2] == 1):
        return "the artefact of another profile is read"
    if B.vals(tgt, c) != {B.opt["target"]}:
        return "the artefact of another target is read: %s" % pp(tgt)[:60]
    if not any(is_call(x, "version_meta") for v in B.vals(host, c) for x in Q.subterms(v)):
        return "the host is taken from %s" % pp(host)[:60]
    return None


def requested(B, c):
    """exactly one of both options is given (C20)"""
    e, n = B.E.decide(c, B.has["example"]), B.E.decide(c, B.has["bin"])
    return (e, n) in ((YES, NO), (NO, YES))


def executable(ctx, B):
    R, E = B.R, B.E
    uses = [(e, e.data[1][0] if e.data[1:] and isinstance(e.data[1], tuple) and e.data[1] and isinstance(e.data[1][0], tuple) else e.data[1])
            for e in R.find("call") if str(e.data[0]).endswith(("analyze_executable", "ElfFile::new"))]
    if not uses:
        raise Incomplete("the executable is not analysed")
    n = 0
    for e, t in uses:
        for c in cases(B, [frozenset(f) for f in B.before(e, (B.has["example"], B.has["bin"]))], (B.has["example"], B.has["bin"])):
            if not requested(B, c):
                continue
            for v in B.vals(t, c):
                n += 1
                k = okof(v, "fs::read")
                m = "something else than a file is analysed: %s" % pp(v)[:80] if k is None else None
                for p in (B.vals(k[3], c) if k else ()):
                    m = m or elf_path(B, p, c)
                if m:
                    ctx.violate("executable/file", "%s (requested: %s)" % (m, "example" if E.decide(c, B.has["example"]) == YES else "binary"), e.loc)
                    return
    ctx.need(n > 0, "executable", "%d uses of the requested program's executable" % n)


def module_paths(B):
    """paths of the modules that are parsed"""
    R, E = B.R, B.E
    ts = {t for e in R.evs for x in e.data if isinstance(x, tuple) for t in Q.subterms(x) if is_s(t, "irparse")}
    ts |= {t for e in R.evs for c in list(e.pc)[:60] for a, v in c for t in Q.subterms(a[1]) if is_s(t, "irparse")}
    out = []
    for t in sorted(ts, key=repr):
        k = okof(t[2], "fs::read_to_string")
        if k is None:
            raise Incomplete("a module that is no file is parsed: %s" % pp(t)[:100])
        out.append(k[3])
    return out


def marker_phi(B, t, d=0):
    """the term is (the payload of) the last reported path -> marker text"""
    E, R = B.E, B.R
    if is_s(t, "f") and t[3:] == (1, 0):
        t = t[2]
    ent = E.phis.get(t)
    if not ent or not isinstance(t[2], int):
        return None, "no report"
    lid = t[2]
    src = [s for s in R.counters(lid) if is_s(s, "lines") and any(is_s(x, "spawn") for x in Q.subterms(s))]
    if len(src) != 1:
        return None, "no report"
    p = R.whole(lid, src[0])
    if p is None:
        return None, "not every message of the build is looked at"
    text = S("f", S("elem", src[0], p), 0, 0)
    ms = markers(B.ctx)
    if any(not (v[0] == "A" and v[2] == 0) for _, v in ent["init"]):
        return None, "a path is known before it is reported"
    mine = None
    for pc, v in ent["back"]:
        if v == t:
            continue
        if v[0] != "A" or v[2] != 1:
            return None, "a reported path is forgotten"
        x = v[3][0]
        if is_s(x, "sub") and x[2] == text and x[4] in (None, ("i", None)):
            k = x[3] if isinstance(x[3], int) else x[3][1]
        else:
            return None, "the path is %s" % pp(x)[:80]
        for c in pc:
            pre = [m for m in ms if E.decide(c, b(S("pre", text, m))) == YES]
            if not pre or len(pre[0]) != k or mine not in (None, pre[0]):
                return None, "the path is taken from a line that is no report (%d characters are skipped)" % k
            mine = pre[0]
    if mine is None:
        return None, "no report is used"
    for pc, v in ent["back"]:
        if v == t:
            for c in pc:
                if E.decide(c, b(S("pre", text, mine))) != NO and Q.add(E, c, b(S("pre", text, mine)), YES) is not None:
                    return None, "a report is ignored when %s" % Q.show(c)
    return mine, None


def reported(ctx, B):
    """the support library's parts are the ones the wrapper reported"""
    R, E = B.R, B.E
    got = set()
    for t in module_paths(B):
        mk, msg = marker_phi(B, t)
        if mk is None and msg != "no report":
            ctx.violate("support/module", "module of the support library: " + msg)
        elif mk:
            got.add("module")
            ctx.need("_ll_" in mk, "support", "module read from the reported path", "the module of the support library is read from the report of the library", key="support/module")
    opens = [e for e in R.find("call") if str(e.data[0]).endswith("File::open")]
    for e in opens:
        t = e.data[1][0] if isinstance(e.data[1][0], tuple) else e.data[1]
        mk, msg = marker_phi(B, t)
        if mk is None:
            ctx.violate("support/library", "support library: %s" % msg, e.loc)
        else:
            got.add("library")
            ctx.need("_rlib_" in mk, "support", "library read from the reported path", "the support library is read from the report of the module", key="support/library")
    for x in ("module", "library"):
        if x not in got and not ctx.bad:
            ctx.violate("support/" + x, "the %s of the support library is not read" % x)


def app_module(ctx, B):
    """the newest module of the requested program -> its path (term)"""
    R, E = B.R, B.E
    paths = [t for t in module_paths(B) if marker_phi(B, t)[0] is None and marker_phi(B, t)[1] == "no report"]
    t = one(paths, "module of the program")
    sel, steps = t, ()
    while is_s(sel, "f") and sel not in E.phis:
        sel, steps = sel[2], (sel[3:5],) + steps
    ent = E.phis.get(sel)
    if not ent or not isinstance(sel[2], int):
        raise Incomplete("selection of the module not understood: %s" % pp(t)[:100])
    lid = sel[2]
    src = [s for s in R.counters(lid)]
    src = one(src, "directory that is searched")
    p = R.whole(lid, src)
    if not ctx.need(p is not None, "module", "all files are considered", key="module/all"):
        return t
    el = S("elem", src, p)
    for pc in R.exits(lid):
        for c in pc:
            failed = any(a[0] == "var" and v == YES and a[2] == 2 and (a[1] == el or is_call(a[1], "DirEntry::metadata", "Metadata::modified")) for a, v in c)
            if not (R.ended(c, src, p) or failed):
                ctx.violate("module/all", "the search for the module ends early when %s" % Q.show(c))
    directory(ctx, B, lid, src)
    entry = S("f", el, 0, 0)
    conj_all = [c for pc in R.backs(lid) for c in pc]
    calls = {x for c in conj_all for a, v in c for x in Q.subterms(a[1]) if is_s(x, "call")}
    pth = one([x for x in calls if is_call(x, "DirEntry::path") and x[3] == entry], "path of the file")
    # the time the selection is based on: kept next to the path, or together with it
    times = [q for q, en in E.phis.items() if q[2] == lid and q != sel and any(okof(v, "Metadata::modified") for _, v in en["back"])]
    pair = None
    if not times and len(steps) == 2 and steps[0] == (1, 0):
        agg = one([v[3][0] for _, v in ent["back"] if v[0] == "A" and v[2] == 1 and v[3][0][0] in ("T", "A")], "what is remembered of a module")
        parts = agg[1] if agg[0] == "T" else agg[3]
        js = [j for j, x in enumerate(parts) if okof(x, "Metadata::modified")]
        j = one(js, "time of the selected module")
        pair = agg
        if parts[steps[1][1]] != pth:
            ctx.violate("module/keep", "something else than the path of the file is remembered")
        tm, mod = S("f", S("f", sel, 1, 0), 0, j), parts[j]
    else:
        tm = one(times, "time of the selected module")
        mod = one(sorted({v for _, v in E.phis[tm]["back"] if v != tm}, key=repr), "time of a module")
    k = okof(mod, "Metadata::modified")
    md = okof(k[3], "DirEntry::metadata") if k else None
    if md is None or md[3] != entry:
        ctx.violate("module/time", "the time compared is not that of the file")
    stem, ext = S("file_stem", pth), S("extension", pth)
    ll = [(var(ext), YES), (b(S("seq", S("f", ext, 1, 0), "ll")), YES)]
    pres = {a for c in conj_all for a, v in c if a[0] == "b" and a[1][1] in ("pre", "prev") and any(x == stem for x in Q.subterms(a[1]))}
    pre = one(sorted(pres, key=repr), "name of the module")
    prefix(ctx, B, lid, pre)
    back = {}
    for q in (sel,) if pair is not None else (sel, tm):
        for pc, v in E.phis[q]["back"]:
            for c in pc:
                back.setdefault(c, {})[q] = v
    none = var(sel)
    news = []
    for c, vs in back.items():
        s, m = vs.get(sel), vs.get(tm)
        if s == sel and (pair is not None or m == tm):
            continue
        if not (s == some(pair) if pair is not None else s == some(pth) and m == mod):
            ctx.violate("module/keep", "the selected file and its time are not recorded together, when %s" % Q.show(c))
            return t
        for a, v in ll + [(pre, YES)]:
            if E.decide(c, a) != v:
                ctx.violate("module/filter", "a file that is no module of the program is taken, when %s" % Q.show(c))
                return t
        if E.decide(c, none) == YES and older(E, c, tm, mod) is not False and older(E, c, tm, mod) is None:
            ctx.violate("module/newest", "a module is taken that is not known to be newer, when %s" % Q.show(c))
        if E.decide(c, none) == YES and older(E, c, tm, mod) is True:
            ctx.violate("module/newest", "an older module replaces a newer one, when %s" % Q.show(c))
        news.append(c)
    if any(not (v[0] == "A" and v[2] == 0) for _, v in ent["init"]):
        ctx.violate("module/init", "a module is selected before the search")
    for c, vs in back.items():
        if vs.get(sel) != sel:
            continue
        # kept: must not be a better candidate
        m = Q.merge(E, c, frozenset([(a, v) for a, v in ll] + [(pre, YES), (b(S("more", src, p)), YES), (var(el), NO)]))
        if m is None:
            continue
        for d in (Q.add(E, m, none, YES), Q.add(E, m, none, NO)):
            if d is None:
                continue
            if E.decide(d, none) == NO:
                ctx.violate("module/first", "a module of the program is ignored although none was found yet, when %s" % Q.show(d))
                return t
            if older(E, d, tm, mod) is not True:
                ctx.violate("module/newest", "a newer module is ignored when %s" % Q.show(d))
                return t
    ctx.need(bool(news), "module", "the newest module of the program is selected (%d paths)" % len(back))
    return t


def older(E, c, old, new):
    """new is known not to be newer than old: True; known to be newer or as new: False"""
    for x, y, r in ((old, new, {YES: False, NO: True}), (new, old, {YES: True, NO: False})):
        for op in ("lt",):
            k = E.decide(c, b(S(op, x, y)))
            if k in r:
                return r[k]
        k = E.decide(c, b(S("le", x, y)))
        if k in r:
            return r[k]
    return None


def directory(ctx, B, lid, src):
    """the directory of the executable, or deps next to it for a binary"""
    E, R = B.E, B.R
    ok = n = 0
    base = [frozenset(f) for f in B.facts(frozenset().union(*[x for x in R.entries(lid)] or [frozenset([frozenset()])]), (B.has["example"], B.has["bin"]))]
    tops = R.toploops()
    if lid in tops:
        pc = frozenset().union(*R.E.phases[tops.index(lid)][3])
    else:
        pc = frozenset().union(*R.entries(lid))
    for c in cases(B, B.facts(pc, (B.has["example"], B.has["bin"])), (B.has["example"], B.has["bin"])):
        if not requested(B, c):
            continue
        for v in B.vals(src, c):
            k = okof(v, "fs::read_dir")
            if k is None:
                raise Incomplete("directory that is searched: %s" % pp(v)[:100])
            for d in B.vals(k[3], c):
                n += 1
                deps = False
                if is_s(d, "join_path") and lit(d[3]) == "deps":
                    deps, d = True, d[2]
                m = None
                if not (is_s(d, "f") and is_s(d[2], "parent")):
                    m = "%s is searched" % pp(d)[:80]
                else:
                    m = next((x for y in B.vals(d[2][2], c) for x in [elf_path(B, y, c)] if x), None)
                want = E.decide(c, B.has["bin"]) == YES
                if m is None and deps != want:
                    m = "the modules of a %s are searched in the wrong directory" % ("binary" if want else "example")
                if m:
                    ctx.violate("module/directory", m)
                    return
    ctx.need(n > 0, "module", "directory of the modules (%d cases)" % n)


def prefix(ctx, B, lid, pre):
    """name with - replaced, followed by -"""
    t = pre[1]
    x = t[3]
    good = False
    if is_s(x, "cat"):
        parts = x[2:]
        if len(parts) == 2 and lit(parts[1]) == "-":
            r = parts[0][2] if is_s(parts[0], "disp") else parts[0]
            if is_s(r, "replace") and [chr(y[1]) if isinstance(y, tuple) and y[0] == "i" else chr(y) if isinstance(y, int) else lit(y) for y in r[3:5]] == ["-", "_"]:
                vs = B.vals(r[2])
                good = all(v in (B.get["example"], B.get["bin"]) for v in vs)
    ctx.need(good, "module", "modules are told by the program's name", "the modules of the program are recognised by %s" % pp(x)[:120], key="module/name")


def app_object(ctx, B, ll):
    """the object file belongs to the module"""
    R = B.R
    n = 0
    for e in R.find("call"):
        if str(e.data[0]).endswith("analyze_object"):
            t = e.data[1][0] if isinstance(e.data[1][0], tuple) else e.data[1]
            if is_m(t):
                continue
            k = okof(t, "fs::read")
            w = k[3] if k else None
            n += 1
            if not ctx.need(is_s(w, "with_extension") and w[2] == ll and lit(w[3]) == "o", "object", "object file of the module",
                            "the stack sizes are read from %s" % pp(w if w is not None else t)[:100], e.loc, key="object/file"):
                return
    if not n:
        ctx.violate("object/file", "the object file of the program is not read")
