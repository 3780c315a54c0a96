"""The compiler wrapper (C19): what it passes on, what it adds, what it reports."""
from engine import S, pp, Incomplete
import q as Q
from q import b, var
from run import Run, Ev, is_s, one
from props.edges import YES, NO
from props.build import lit, worlds, markers

LIB = "compiler_builtins"
NOPRELUDE = "noprelude:"
ARGS = ("--extern", "--crate-name", "--out-dir")


class WRun(Run):
    def __init__(self, ctx, path):
        E = ctx.engine()
        self.E, self.ctx = E, ctx
        self.outs = E.outs = E.run(ctx.body(path))
        d = {}
        for e in E.events:
            k = (e.kind, e.data, e.loops)
            if k not in d:
                d[k] = Ev(e)
            d[k].pcs.append(e.pc)
            d[k].locs.add(e.loc)
            d[k].last = e.seq
        self.evs = list(d.values())


def text(e):
    """pieces of a printed line without the final newline"""
    out = []
    for x in e.data[0][1] if e.data[0][0] in ("T", "V") else e.data[0]:
        s = lit(x)
        if s is not None:
            if out and isinstance(out[-1], str):
                out[-1] += s
            else:
                out.append(s)
        else:
            out.append(x[2] if is_s(x, "disp") else x)
    if out and isinstance(out[-1], str):
        out[-1] = out[-1].rstrip("\n")
        if not out[-1]:
            out.pop()
    return out


def swap(t, a, z):
    """t with a replaced by z"""
    if t == a:
        return z
    if isinstance(t, tuple):
        return tuple(swap(x, a, z) for x in t)
    return t


def split(E, conjs, f):
    """splits the paths until f(conj) returns a value instead of an atom -> [(conj, value)]"""
    out, work = [], list(conjs)
    n = 0
    while work:
        c = work.pop()
        n += 1
        if n > 20000:
            raise Incomplete("too many cases")
        v = f(c)
        if isinstance(v, tuple) and v and v[0] == "?":
            for w in (YES, NO):
                x = Q.add(E, c, v[1], w)
                if x is not None:
                    work.append(x)
        else:
            out.append((c, v))
    return out


class Wrap:
    def __init__(self, ctx):
        self.ctx = ctx
        self.R = R = WRun(ctx, "wrapper::wrapper")
        self.E = E = R.E
        if E.incomplete:
            raise Incomplete("the wrapper is not understood: %s" % (E.incomplete,))
        self.cmd = one([e.data[0] for e in R.find("cmd-new")], "compiler that is run")
        runs = [e for e in R.find("cmd-run") if e.data[0] == self.cmd]
        self.start = one(runs, "start of the compiler")
        if self.start.loops:
            raise Incomplete("the compiler is started in a loop")
        self.stat = S(self.start.data[1], self.cmd)
        mk = sorted(markers(ctx))
        self.rlib = one([m for m in mk if "_rlib_" in m], "report of the library")
        self.ll = one([m for m in mk if "_ll_" in m], "report of the module")
        self.find_loop()

    # -------------------------------------------------------- the loop over the command line
    def find_loop(self):
        E, R = self.E, self.R
        cand = {}
        for lid in E.loops:
            for pc in R.backs(lid):
                for c in pc:
                    for a, v in c:
                        if a[0] == "b" and is_s(a[1], "seq") and lit(a[1][3]) in ARGS and is_s(a[1][2], "elem"):
                            cand.setdefault(lid, set()).add(a[1][2])
        inner = lambda t: any(is_s(x, "ix") and x[2] in cand for x in Q.subterms(t))
        cand = {l: {t for t in ts if not inner(t)} for l, ts in cand.items()}
        lid = one(sorted(l for l in cand if cand[l]), "loop over the options")
        self.lid = lid
        toks = cand[lid]
        ps = {p for t in toks for p in Q.subterms(t) if is_s(p, "phi") and p[2] == lid}
        self.p = one(sorted(ps, key=repr), "position in the command line")
        self.T = one(sorted(toks, key=repr), "option")
        self.N = swap(self.T, self.p, S("add", *sorted((self.p, ("i", 1)), key=repr)))
        ent = E.phis[self.p]
        self.src = one(sorted({a[1][2] for pc in R.backs(lid) for c in pc for a, v in c if a[0] == "b" and is_s(a[1], "more") and a[1][3] == self.p and v == YES}, key=repr), "source of the options")
        self.next = b(S("more", self.src, S("add", *sorted((self.p, ("i", 1)), key=repr))))
        self.first = sorted({v for _, v in ent["init"]}, key=repr)
        # iterations: paths with the new values of what is carried along
        self.back = {}
        for q, en in E.phis.items():
            if q[2] == lid:
                for pc, v in en["back"]:
                    for c in pc:
                        self.back.setdefault(c, {})[q] = v
        for pc in R.backs(lid):
            for c in pc:
                self.back.setdefault(c, {})

    def eq(self, c, t, l):
        """decision of `t is the text l`, in the forms the code may have asked it"""
        E = self.E
        d = E.decide(c, b(S("seq", t, l)))
        if d is None and is_s(t, "elem"):
            for a, v in c:
                if a[0] == "b" and is_s(a[1], "seq") and lit(a[1][3]) == "" and is_s(a[1][2], "sub") and a[1][2][2] == t and a[1][2][3] == ("i", len(l)) and a[1][2][4] is None:
                    if v == NO:
                        return NO
                    if E.decide(c, b(S("pre", t, l))) == YES:
                        return v
        return d

    def kind(self, c, T):
        """what option T is on path c, or the question to ask"""
        for l in ARGS:
            d = self.eq(c, T, l)
            if d == YES:
                return l
            if d != NO:
                return ("?", b(S("seq", T, l)))
        d = self.E.decide(c, b(S("pre", T, "-C")))
        if d == NO:
            return "other"
        if d != YES:
            return ("?", b(S("pre", T, "-C")))
        d = self.eq(c, T, "-C")
        if d == YES:
            return "-C"
        if d == NO:
            return "-Cx"
        return ("?", b(S("seq", T, "-C")))

    def sub(self, t, n):
        """the rest of text t after n characters, as written"""
        return S("sub", t, ("i", n), None)

    def codegen(self, c, T, N, k):
        """value of -Cextra-filename on path c: None, "missing", the value, or a question"""
        E = self.E
        V = N if k == "-C" else self.sub(T, 2)
        return self.keyval(c, V, "extra-filename")

    def keyval(self, c, V, name):
        """V is name=value -> value term; None: other name; "missing": no value"""
        E = self.E
        d = E.decide(c, b(S("pre", V, name + "=")))
        if d == YES:
            return self.sub(V, len(name) + 1)
        sp = S("splitn", V, ("i", 2), ("s", "="))
        n = S("elem", sp, ("i", 0))
        d2 = E.decide(c, b(S("seq", n, name)))
        if d == NO and d2 != YES:
            return None
        if d2 == NO:
            return None
        if d2 == YES:
            m = E.decide(c, b(S("more", sp, ("i", 1))))
            if m == YES:
                return S("elem", sp, ("i", 1))
            if m == NO:
                return "missing"
            return ("?", b(S("more", sp, ("i", 1))))
        return ("?", b(S("seq", n, name)))

    def extern(self, c, N):
        """path of the support library in the value N of --extern: None or the path, or a question"""
        E = self.E
        a = b(S("pre", N, NOPRELUDE))
        d = E.decide(c, a)
        if d is None or d not in (YES, NO):
            return ("?", a)
        V = self.sub(N, len(NOPRELUDE)) if d == YES else N
        r = self.keyval(c, V, LIB)
        return None if r == "missing" else r

    # -------------------------------------------------------- what is carried along
    def opt_phi(self, t, what):
        """phi whose payload t is"""
        if is_s(t, "f") and t[3:] == (1, 0) and t[2] in self.E.phis and t[2][2] == self.lid:
            return t[2]
        raise Incomplete("%s is not understood: %s" % (what, pp(t)[:100]))

    def named(self):
        """the remembered crate name, from the decision that the support library is compiled"""
        xs = set()
        for e in self.R.evs:
            for c in e.pc:
                for a, v in c:
                    if a[0] == "b" and is_s(a[1], "seq") and lit(a[1][3]) == LIB and not is_s(a[1][2], "elem"):
                        xs.add(a[1][2])
        xs = {x for x in xs if is_s(x, "f") and is_s(x[2], "phi") and x[2][2] == self.lid}
        return one(sorted(xs, key=repr), "name of the crate that is compiled")


def wrapper(ctx):
    W = Wrap(ctx)
    R, E = W.R, W.E
    name = W.named()
    crate = W.opt_phi(name, "crate name")
    isl = b(S("seq", name, LIB))
    out, extra = module_report(ctx, W, name, isl)
    parse(ctx, W, crate, out, extra)
    library_report(ctx, W)
    passed_on(ctx, W, isl)
    results(ctx, W, crate, out, isl)
    dispatch(ctx)


def base(W, isl, e):
    """paths to the event, split on whether the support library is compiled"""
    return [c for c, v in split(W.E, list(e.pc), lambda c: ("?", isl) if W.E.decide(c, isl) not in (YES, NO) else True)]


def module_report(ctx, W, name, isl):
    """the module of the support library is reported as directory/name+extra.ll"""
    R, E = W.R, W.E
    pr = [e for e in E.events if e.kind == "eprint" and text(e) and isinstance(text(e)[0], str) and text(e)[0].startswith(W.ll)]
    if not pr or any(e.loops for e in pr):
        raise Incomplete("report of the module of the support library")
    bases = base(W, isl, W.start)
    outs, extras = set(), set()
    ws = worlds(E, bases, pr)
    seen = False
    for c, evs in ws:
        comp = E.decide(c, isl)
        if comp == NO:
            ctx.need(not evs, "module", "no module is reported for other crates", "a module is reported although another crate is compiled", key="module/other")
            continue
        seen = True
        if not ctx.need(len(evs) == 1, "module", "one report when the support library is compiled", "%d modules are reported when the support library is compiled, when %s" % (len(evs), Q.show(c)), key="module/missing"):
            continue
        ps = text(evs[0])
        ps[0] = ps[0][len(W.ll):]
        ps = [x for x in ps if x != ""]
        good = len(ps) in (4, 5) and ps[1] == "/" and ps[2] == name and ps[-1] == ".ll"
        if not ctx.need(good, "module", "path of the module", "the path of the module is reported as %s" % "".join(x if isinstance(x, str) else "{%s}" % pp(x)[:60] for x in ps), key="module/path"):
            continue
        outs.add(ps[0])
        x = ps[3] if len(ps) == 5 else None
        extras.add((c, x))
    if not seen:
        ctx.violate("module/missing", "the module of the support library is never reported")
    if ctx.bad:
        return None, None
    o = W.opt_phi(one(sorted(outs, key=repr), "output directory"), "output directory")
    # the extra file name is the payload of a remembered option; nothing when none was given
    ph = {W.opt_phi(x, "extra file name") for c, x in extras if x is not None and not is_s(x, "unwrapor")}
    ph |= {x[2] for c, x in extras if x is not None and is_s(x, "unwrapor")}
    x0 = one(sorted(ph, key=repr), "extra file name")
    for c, x in extras:
        d = E.decide(c, var(x0))
        if x is None:
            ctx.need(d == NO, "module", "no extra file name was given", "the extra file name is left out when %s" % Q.show(c), key="module/extra")
        elif not is_s(x, "unwrapor"):
            ctx.need(d == YES, "module", "an extra file name was given", "an extra file name is used that was not given", key="module/extra")
    if len({o, x0, name[2]}) != 3:
        ctx.violate("module/path", "different parts of the path of the module come from the same option")
    return o, x0


def parse(ctx, W, crate, out, extra):
    """every option that matters is read, with its value, wherever it stands"""
    R, E = W.R, W.E
    if crate is None or out is None or extra is None:
        return
    # all arguments are looked at
    start = one(W.first, "first option")
    okstart = start == ("i", 2) if is_s(W.src, "args") else start == ("i", 0) and all_args(W, W.src) or start == ("i", 1) and collected(W, W.src, 1)
    ctx.need(okstart, "parse", "parsing starts at the first argument for the compiler", "parsing starts at argument %s" % pp(start), key="parse/first")
    for q in (crate, out, extra):
        if any(not (v[0] == "A" and v[2] == 0) for _, v in E.phis[q]["init"]):
            ctx.violate("parse/init", "an option has a value before it is read")
    role = {crate: "crate name", out: "output directory", extra: "extra file name"}
    p1, p2 = (S("add", *sorted((W.p, ("i", n)), key=repr)) for n in (1, 2))
    n = 0

    def f(c):
        k = W.kind(c, W.T)
        if isinstance(k, tuple):
            return k
        if k in ("-C", "-Cx"):
            v = W.codegen(c, W.T, W.N, k)
            if isinstance(v, tuple) and v[0] == "?":
                return v
            return (k, v)
        return (k, None)
    for c0, vals in W.back.items():
        for c, (k, v) in split(E, [c0], f):
            n += 1
            new = dict.fromkeys((crate, out, extra))
            if k == "--crate-name":
                new[crate] = W.N
            elif k == "--out-dir":
                new[out] = W.N
            elif v is not None:
                if v == "missing":
                    ctx.violate("parse/extra", "an extra file name without a value is accepted")
                    return
                new[extra] = v
            for q, w in new.items():
                got = vals.get(q, q)
                want = q if w is None else ("A", got[1] if got[0] == "A" else "", 1, (w,))
                if not ctx.need(got == want, "parse", "carried values after an option", "after the option %s the %s is %s, when %s" % (k, role[q], pp(got)[:100], Q.show(c)), key="parse/value"):
                    return
            pos = vals.get(W.p, W.p)
            want = p1 if k in ("other", "-Cx") else p2
            if not ctx.need(pos == want, "parse", "next position", "after the option %s parsing goes on at %s, when %s" % (k, pp(pos)[:60], Q.show(c)), key="parse/next"):
                return
    for pc in R.exits(W.lid):
        for c in pc:
            if E.decide(c, b(S("more", W.src, W.p))) == NO:
                continue
            for d, (k, v) in split(E, [c], f):
                miss = k in ARGS + ("-C",) and E.decide(d, W.next) == NO
                if not ctx.need(miss or v == "missing", "parse", "ways out of the loop", "parsing ends early at the option %s when %s" % (k, Q.show(d)), key="parse/early"):
                    return
    ctx.need(n > 0, "parse", "%d cases of one option" % n)


def library_report(ctx, W):
    """a linked support library is reported with its path"""
    R, E = W.R, W.E
    pr = [e for e in E.events if e.kind == "eprint" and text(e) and isinstance(text(e)[0], str) and text(e)[0].startswith(W.rlib)]
    if not pr:
        ctx.violate("library/missing", "the support library is never reported")
        return
    ls = {e.loops[-1] if e.loops else None for e in pr}
    L = one(sorted(ls, key=repr), "report of the library")
    for e in pr:
        t = text(e)
        if not (len(t) == 2 and t[0] == W.rlib):
            ctx.violate("library/text", "the support library is reported as %s" % pp(e.data)[:120])
            return

    def reported(conjs, evs, T, N, what):
        """on each path a report iff the option names the library with a path"""
        def f(c):
            k = W.kind(c, T)
            if isinstance(k, tuple):
                return k
            if k != "--extern":
                return (k, None)
            v = W.extern(c, N)
            return v if isinstance(v, tuple) and v[0] == "?" else (k, v)
        n = 0
        for c0, here in worlds(E, conjs, evs):
            for c, (k, v) in split(E, [c0], f):
                n += 1
                if v is None:
                    if not ctx.need(not here, "library", "no other library is reported", "%s for the option %s that does not name the library with a path, when %s" % (what, k, Q.show(c)), key="library/other"):
                        return
                    continue
                if not ctx.need(len(here) >= 1, "library", "a named library is reported", "a support library that is named is not reported when %s" % Q.show(c), key="library/missing"):
                    return
                yield c, v, here
        ctx.need(n > 0, "library", "%d cases" % n)

    if L is None:
        # remembered in the loop, printed after it
        q = {W.opt_phi(text(e)[1], "path of the library") for e in pr}
        q = one(sorted(q, key=repr), "path of the library")
        for c, evs in worlds(E, [c for c, _ in split(E, list(W.start.pc), lambda c: ("?", var(q)) if E.decide(c, var(q)) not in (YES, NO) else True)], pr):
            ctx.need((len(evs) == 1) == (E.decide(c, var(q)) == YES), "library", "reported when known", "a known library is not reported, or an unknown one is, when %s" % Q.show(c), key="library/missing")
        if any(not (v[0] == "A" and v[2] == 0) for _, v in E.phis[q]["init"]):
            ctx.violate("library/init", "a library is known before it is read")
        for c0, vals in W.back.items():
            new = vals.get(q, q)
            for c, v, here in cases(W, [c0], W.T, W.N):
                if v is None:
                    good = new == q
                else:
                    good = new[0] == "A" and new[2] == 1 and new[3][0] == v
                if not ctx.need(good, "library", "what is remembered", "the library is remembered as %s when %s" % (pp(new)[:80], Q.show(c)), key="library/path"):
                    return
        return
    if L == W.lid:
        conjs = list(W.back)
        for c, v, here in reported(conjs, pr, W.T, W.N, "a library is reported"):
            if not ctx.need(all(text(e)[1] == v for e in here), "library", "the reported path", "%s is reported as the path of the library" % pp(text(here[0])[1])[:100], key="library/path"):
                return
        return
    # collected in the loop, printed in another
    src = one(list(R.counters(L)), "what the reporting loop runs over")
    pos = R.whole(L, src)
    if not ctx.need(pos is not None, "library", "all named libraries are looked at", key="library/all"):
        return
    for pc in R.exits(L):
        for c in pc:
            ctx.need(R.ended(c, src, pos), "library", "the reporting loop runs to its end", "the reports of libraries end early when %s" % Q.show(c), key="library/all")
    top, item = src, pos
    if is_s(src, "staged"):
        src, item = src[2], S("acc", src[3], pos)
    push = [e for e in E.events if e.kind == "push" and e.data[0] == src]
    other = [e for e in R.evs if e.data and e.data[0] == src and e.kind not in ("push",) or e.kind == "mutate" and len(e.data) > 1 and e.data[1] == src]
    if other or any(W.lid not in e.loops for e in push):
        raise Incomplete("collection of libraries: %s" % (other or push,))
    at = S("ix", W.lid, src, item)
    # every library that must be reported is collected, and passes the filter
    for c0, here in worlds(E, list(W.back), push):
        for c, v, _ in cases(W, [c0], W.T, W.N):
            if v is not None and not ctx.need(len(here) >= 1, "library", "a named library is collected", "a support library that is named is not collected when %s" % Q.show(c), key="library/missing"):
                return
            if v is None or top == src:
                continue
            F = frozenset((swap(a, W.p, at), x) for a, x in c) | {(b(S("more", src, item)), YES), (b(S("more", top, pos)), YES)}
            r = Q.cover(E, frozenset(d for pc in R.entries(L) for d in pc), R.backs(L), F)
            if not ctx.need(r is None, "library", "a named library passes the filter", "a support library that is named is not considered when %s" % Q.show(c), key="library/missing"):
                return
    T = swap(W.T, W.p, at)
    N = swap(W.T, W.p, S("add", *sorted((at, ("i", 1)), key=repr)))
    conjs = [c for pc in R.backs(L) for c in pc]
    for c, v, here in reported(conjs, pr, T, N, "a library is reported"):
        if not ctx.need(all(text(e)[1] == v for e in here), "library", "the reported path", "%s is reported as the path of the library" % pp(text(here[0])[1])[:100], key="library/path"):
            return
    for st, v in R.outs:
        v = E.deep(st, v)
        if v[0] == "A" and v[2] == 0:
            for c in st.pc:
                if not ctx.need(R.ended(c, top, pos), "library", "reports are made before the end", "the wrapper ends without the reports when %s" % Q.show(c), key="library/all"):
                    return


def cases(W, conjs, T, N):
    """-> (conj, path of the library or None, ())"""
    def f(c):
        k = W.kind(c, T)
        if isinstance(k, tuple):
            return k
        if k != "--extern":
            return (k, None)
        v = W.extern(c, N)
        return v if isinstance(v, tuple) and v[0] == "?" else (k, v)
    for c, (k, v) in split(W.E, conjs, f):
        yield c, v, ()


def passed_on(ctx, W, isl):
    """the compiler is run with the arguments it was meant to get, plus the flags"""
    R, E = W.R, W.E
    new = one(R.find("cmd-new"), "compiler")
    prog = new.data[1]
    ctx.need(is_s(prog, "elem") and prog[3] == ("i", 1) and "args" in repr(prog[2]), "run", "the compiler that was given is run", "%s is run instead of the compiler that was given" % pp(prog)[:80], key="run/program")
    raw = [e for e in E.events if e.kind == "cmd" and e.data[0] == W.cmd]
    for e in raw:
        if e.loops:
            if e.data[1] != "arg":
                raise Incomplete("the command is changed in a loop: %s" % e.loc)
        if e.seq > W.start.last:
            ctx.violate("run/late", "the command is changed after the compiler was started", e.loc)
    looped = [e for e in R.find("cmd") if e.data[0] == W.cmd and e.loops]
    for c, evs in worlds(E, base(W, isl, W.start), [e for e in raw if not e.loops]):
        flags, whole = [], 0
        for e in sorted(evs, key=lambda e: e.seq):
            op = e.data[1]
            if op == "arg":
                flags.append(lit(e.data[2]) or pp(e.data[2])[:60])
            elif op == "args":
                l = literals(E, e.data[2])
                if l is not None:
                    flags += l
                elif all_args(W, e.data[2]):
                    whole += 1
                else:
                    ctx.violate("run/args", "the compiler gets %s instead of all original arguments" % pp(e.data[2])[:80], e.loc)
                    return
            elif op in ("env", "env_remove", "envs"):
                continue
            else:
                ctx.violate("run/" + op, "the compiler is run with a changed setting: %s" % op, e.loc)
        if looped:
            if any(not each_arg(W, e) for e in looped) or len(looped) != 1:
                ctx.violate("run/args", "the compiler does not get all original arguments one after the other")
                return
            whole += 1
        want = ["-Zemit-stack-sizes"] + (["--emit=llvm-ir"] if E.decide(c, isl) == YES else [])
        what = "the support library" if E.decide(c, isl) == YES else "another crate"
        if not ctx.need(sorted(flags) == sorted(want), "run", "added options", "the options %s are added when %s is compiled, when %s" % (flags, what, Q.show(c)), key="run/flags"):
            return
        if not ctx.need(whole == 1, "run", "all original arguments", "the original arguments are passed %d times" % whole, key="run/args"):
            return


def literals(E, t):
    if t[0] == "V":
        l = [lit(x) for x in t[1]]
        return l if all(x is not None for x in l) else None
    return None


def all_args(W, t):
    """t is all arguments from the second on, in order"""
    R, E = W.R, W.E
    if t[0] == "A" and t[1] == "#it" and t[3][1] in (("T", ()), ()) and t[3][2] == ("i", 0):
        t = t[3][0]
    if is_s(t, "skip"):
        return is_s(t[2], "args") and t[3] == ("i", 2)
    if is_s(t, "sub") and t[3] == ("i", 1) and t[4] is None:
        return collected(W, t[2], 1)
    return collected(W, t, 2)


def collected(W, m, first):
    R, E = W.R, W.E
    ps = [e for e in R.evs if e.kind == "push" and e.data[0] == m]
    oth = [e for e in R.evs if e.kind in ("insert", "remove", "sort", "clear", "store") and e.data and e.data[0] == m or e.kind == "mutate" and len(e.data) > 1 and e.data[1] == m]
    if len(ps) != 1 or oth or len(ps[0].loops) != 1:
        return False
    return each(W, ps[0], ps[0].data[1], first)


def each_arg(W, e):
    return len(e.loops) == 1 and each(W, e, e.data[2], 2)


def element(v):
    """v is an argument -> (sequence it was taken from, position)"""
    if not is_s(v, "elem"):
        return None
    if is_s(v[3], "ix"):
        return v[3][3], v[3][4]
    return v[2], v[3]


def each(W, e, v, first):
    R, E = W.R, W.E
    lid = e.loops[0]
    if element(v) is None or element(v)[1] not in E.phis or element(v)[1][2] != lid:
        return False
    src, p = element(v)
    ini = {x for _, x in E.phis[p]["init"]}
    step = S("add", *sorted((p, ("i", 1)), key=repr))
    if any(x != step for _, x in E.phis[p]["back"]):
        return False
    if is_s(src, "args"):
        if ini != {("i", first)}:
            return False
    elif not (ini == {("i", 0)} and all_args(W, src)):
        return False
    for pc in R.backs(lid):
        for c in pc:
            if not any(Q.merge(E, c, d) == c for d in e.pc):
                return False
    return all(E.decide(c, b(S("more", src, p))) == NO for pc in R.exits(lid) for c in pc)


def results(ctx, W, crate, out, isl):
    """exit code of the compiler; errors only for missing arguments"""
    R, E = W.R, W.E
    if crate is None or out is None:
        return
    res = var(W.stat)
    code = S("exitcode", S("f", W.stat, 0, 0))
    n = 0
    for st, v in R.outs:
        v = E.deep(st, v)
        for c in st.pc:
            n += 1
            if v[0] == "A" and v[2] == 0:
                x = v[3][0]
                k = E.decide(c, var(code))
                if x == S("f", code, 1, 0) and k == YES:
                    good = True
                elif k == NO:
                    good = x[0] == "i" and x[1] != 0
                else:
                    good = is_s(x, "unwrapor") and x[2] == code and x[3][0] == "i" and x[3][1] != 0
                if not ctx.need(good, "result", "exit code of the compiler", "the wrapper ends with %s instead of the exit code of the compiler, when %s" % (pp(x)[:60], Q.show(c)), key="result/code"):
                    return
                if not ctx.need(E.decide(c, var(crate)) == YES, "result", "a crate name was given", "a missing crate name is no error", key="result/crate"):
                    return
                if not ctx.need(E.decide(c, isl) == NO or E.decide(c, var(out)) == YES, "result", "an output directory was given", "a missing output directory is no error when the support library is compiled", key="result/out"):
                    return
                continue
            if not (v[0] == "A" and v[2] == 1):
                raise Incomplete("result of the wrapper: %s" % pp(v)[:80])
            ok = E.decide(c, res) == YES
            ok = ok or E.decide(c, var(crate)) == NO and E.decide(c, b(S("more", W.src, W.p))) == NO
            ok = ok or E.decide(c, var(out)) == NO and E.decide(c, isl) == YES
            # missing values are judged where the options are read
            ok = ok or E.decide(c, b(S("more", W.src, W.p))) == YES
            if not ctx.need(ok, "result", "errors", "the wrapper refuses a valid command line: %s when %s" % (pp(v)[:60], Q.show(c)), key="result/error"):
                return
    ctx.need(n > 0, "result", "%d ways to end" % n)


def dispatch(ctx):
    """the program acts as the wrapper exactly when the build told it to"""
    R = Run(ctx)
    E = R.E
    key = None
    for e in R.find("cmd"):
        if e.data[1] == "env" and lit(e.data[2]) and "WRAPPER" in lit(e.data[2]) and lit(e.data[2]) != "RUSTC_WRAPPER":
            key = lit(e.data[2])
    if key is None:
        raise Incomplete("how the wrapper is started")
    at = None
    for st, v in R.outs:
        for c in st.pc:
            for a, w in c:
                if any(is_s(t, "call") and "env::var" in str(t[2]) and key in repr(t) for t in Q.subterms(a[1])):
                    at = a if at is None or at == a else at
    if not ctx.need(at is not None, "dispatch", "the environment is consulted", "the program never acts as the wrapper", key="dispatch/never"):
        return
    yes = YES
    for st, v in R.outs:
        v = E.deep(st, v)
        w = is_s(v, "wrapper::wrapper")
        for c in st.pc:
            d = E.decide(c, at)
            on = d == YES if at[0] == "b" or "var_os" in repr(at) else d == NO
            if not ctx.need(w == on, "dispatch", "wrapper iff started by the build", "the program %s the wrapper when %s" % ("is" if w else "is not", Q.show(c)), key="dispatch/when"):
                return
