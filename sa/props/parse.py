"""C08, C09, C10: the parser of the intermediate code, over abstract texts (sa/pstr.py)."""
import multiprocessing
import os
import sys
import time

import pstr
from pstr import (ALL, ALPHA, BLANK, CR, DIGIT, IDENT, IDENT0, NL, TEXT, WORD, Hole, Incomplete, Lx, Program, Rep, Unknown, anyl,
                  cs, holes, text, value)

T = lambda role: Hole("type", role)
NAMECHARS = TEXT & ~cs('"')


def ident(role):
    return [Lx(role, IDENT0, IDENT)]


def num(role):
    return [Lx(role, DIGIT, DIGIT)]


def quoted(role):
    return ['"', Lx(role, NAMECHARS, NAMECHARS), '"']


NAMES = (("plain", ident), ("quoted", quoted), ("numbered", num))

# the first characters of a type
TYPE_PRODS = [
    (True, ["["]), (True, ["{"]), (True, ["<"]), (True, ["%"]),
    (False, ["double"]), (False, ["float"]), (False, ["ptr"]), (False, ["i", Lx("width", DIGIT, DIGIT)]), (False, ["..."]),
    (True, ["double*"]), (True, ["float*"]), (True, ["ptr*"]), (True, ["i", Lx("width", DIGIT, DIGIT), "*"]),
    (True, ["i", Lx("width", DIGIT, DIGIT), " ("]), (True, ["void ("]),
]


def program(ctx):
    if getattr(ctx, "_parser", None):
        return ctx._parser
    P = Program(ctx.j)
    P.k_type = P.root("ir::ty::Type", "types")
    P.k_stmt = P.root("ir::define::Stmt", "statements")
    P.k_item = P.root("ir::item::Item", "items")
    P.nonterm = {P.k_type: "type", P.k_stmt: "stmt", P.k_item: "item"}
    P.prods = {"type": TYPE_PRODS}
    P.firsts = {"type": cs("[{<%dfpi.v"), "stmt": ALL & ~NL & ~CR & ~cs("}"), "item": cs(";st%@da!m")}
    ctx._parser = P
    return P


def finish(ctx, P):
    run_all(ctx, P)
    for p in P.used:
        ctx.bodies.add(p)
    ctx.cov["paths"] = P.paths


class Case:
    """one sentence form and what the parser has to make of it"""

    def __init__(self, ctx, P, key, rule, name):
        self.ctx, self.P, self.key, self.rule, self.name = ctx, P, key, rule, name

    def run(self, sentence, judge):
        """judge(R, kind, rest, value) -> error text or None; kind is 'ok', 'err' or 'panic'.
        The cases are decided together, at the end (run_all)"""
        q = getattr(self.ctx, "_cases", None)
        if q is None:
            q = self.ctx._cases = []
        q.append((self, sentence, judge))

    def decide(self, sentence, judge):
        bad = {}
        P = self.P
        n = [0]

        def j(R, r):
            n[0] += 1
            if r[0] == "panic":
                e = judge(R, "panic", None, r[1])
            elif r[0] != "adt" or r[1] != "Result":
                e = "no result"
            elif r[2] == 0:
                i, v = R.split(r) if R.deref(r[3][0])[0] == "tup" else (None, r[3][0])
                e = judge(R, "ok", i, v)
            else:
                e = judge(R, "err", None, None)
            if e and e not in bad:
                bad[e] = 1
        try:
            P.explore(self.key, sentence, j)
        except Unknown as e:
            bad["not decided: %s" % e] = 1
        except Incomplete as e:
            bad["not decided: %s" % e] = 1
        except RecursionError:
            bad["not decided: unbounded recursion"] = 1
        if n[0] == 0 and not bad:
            bad["no way through the parser"] = 1
        return list(bad)[:3], n[0]

    def report(self, sentence, bad, n):
        if bad:
            for e in bad:
                self.ctx.violate("%s/%s" % (self.rule, self.name), "%s: %s [text: %s]" % (self.name, e, show(sentence)), self.P.bodies[self.key]["path"])
        else:
            self.ctx.ok(self.rule, "%s: %s (%d ways)" % (self.name, show(sentence), n))


_work = None


def _decide(k):
    c, sentence, judge = _work[k]
    P = c.P
    P.used, p0 = set(), P.paths
    try:
        bad, n = c.decide(sentence, judge)
    except Exception as e:  # the analysis itself does not know what to make of the code
        bad, n = ["not decided: %s: %s" % (type(e).__name__, e)], 0
    return bad, n, P.used, P.paths - p0


def run_all(ctx, P):
    """every case, by several processes"""
    global _work
    _work = ctx.__dict__.pop("_cases", [])
    P.deadline = time.time() + 600
    sys.setrecursionlimit(20000)
    order_ = sorted(range(len(_work)), key=lambda k: -weight(_work[k][1]))
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        res = dict(zip(order_, pool.map(_decide, order_, chunksize=1)))
    for k, (c, sentence, _) in enumerate(_work):
        bad, n, used, paths = res[k]
        c.report(sentence, bad, n)
        P.used |= used
        P.paths += paths
    _work = None


def weight(sent):
    return sum(5 + weight(e.body) if isinstance(e, Rep) else 3 if isinstance(e, Hole) else 1 for e in sent)


def show(sent):
    out = []
    for e in sent:
        if isinstance(e, str):
            out.append(e.replace("\n", "\\n"))
        elif isinstance(e, Lx):
            out.append("<%s>" % e.role)
        elif isinstance(e, Hole):
            out.append("<%s %s>" % (e.kind, e.role))
        else:
            out.append("(%s)*" % show(e.body))
    return "".join(out)


# ---------------------------------------------------------------- C10
def sigv(inputs, output):
    return ("FnSig", ("inputs", inputs), ("output", output))


def stars(v, n):
    for _ in range(n):
        v = ("Pointer", v)
    return v


def base_types():
    """name, sentence, value(R)"""
    out = []
    for w in ("double", "float"):
        out.append((w, [w], lambda R, w=w: (w.capitalize(),)))
    out.append(("opaque pointer", ["ptr"], lambda R: ("OpaquePointer",)))
    out.append(("varargs", ["..."], lambda R: ("Varargs",)))
    out.append(("integer", ["i"] + num("width"), lambda R: ("Integer", ("num", "<width>"))))
    for n, f in NAMES:
        out.append((n + " alias", ["%"] + f("name"), lambda R: ("Alias", "<name>")))
    out.append(("array", ["["] + num("n") + [" x ", T("e"), "]"], lambda R: ("Array", ("num", "<n>"), holes(R, "e")[0])))
    out.append(("vector", ["<"] + num("n") + [" x ", T("e"), ">"], lambda R: ("MVTVector", ("num", "<n>"), holes(R, "e")[0])))
    for k, o, c in (("Struct", "{", "}"), ("PackedStruct", "<{", "}>")):
        fl = lambda R, k=k: (k, holes(R, "f"))
        out.append(("empty " + k, [o + c], fl))
        out.append(("spaced empty " + k, [o + " " + c], fl))
        out.append((k, [o + " ", T("f"), Rep([", ", T("f")]), " " + c], fl))
        out.append(("tight " + k, [o, T("f"), Rep([", ", T("f")]), c], fl))
    return out


def fn_args():
    yield "no parameters", ["()"]
    yield "parameters", ["(", T("p"), Rep([", ", T("p")]), ")"]


FOLLOW = (("at the end of the text", []), ("before a comma", [","]), ("before a name", [" @"]), ("before a bracket", [")"]),
          ("before a word", [" x"]))


def types(ctx):
    P = program(ctx)
    key = P.k_type

    def exact(want, tail):
        def judge(R, kind, rest, v):
            if kind != "ok":
                return "it is not accepted as a type"
            got = value(R, v)
            w = want(R)
            if got != w:
                return "it is read as %s, expected %s" % (fmt(got), fmt(w))
            n = R.tape.norm(rest[1])
            left = "".join((x.lit or "?") for x in R.tape.walk_from(n))
            if left != "".join(tail):
                return "the text left is %r instead of %r" % (left, "".join(tail))
        return judge

    for name, sent, val in base_types():
        for fname, tail in FOLLOW:
            Case(ctx, P, key, "every type is read", name + " " + fname).run(sent + tail, exact(val, tail))
        for k in (1, 2, 3):
            Case(ctx, P, key, "pointers", "%s, %d pointer levels" % (name, k)).run(
                sent + ["*" * k] + [" @"], exact(lambda R, k=k, val=val: stars(val(R), k), [" @"]))
        for an, args in fn_args():
            for a in (0, 1, 2):
                for b in (0, 1, 2):
                    if a == 2 and b == 2:
                        continue
                    w = lambda R, a=a, b=b, val=val: stars(("Fn", sigv(holes(R, "p"), ("Some", stars(val(R), a)))), b)
                    Case(ctx, P, key, "function types", "%s, %d pointer levels, %s, %d pointer levels" % (name, a, an, b)).run(
                        sent + ["*" * a + " "] + args + ["*" * b, " @"], exact(w, [" @"]))
    for an, args in fn_args():
        for b in (0, 1, 2, 3):
            w = lambda R, b=b: stars(("Fn", sigv(holes(R, "p"), None)), b)
            Case(ctx, P, key, "function types", "no result, %s, %d pointer levels" % (an, b)).run(["void "] + args + ["*" * b, ","], exact(w, [","]))
    # a function that returns a function pointer
    w = lambda R: ("Pointer", ("Fn", sigv(holes(R, "q"), ("Some", ("Pointer", ("Fn", sigv(holes(R, "p"), ("Some", ("OpaquePointer",)))))))))
    Case(ctx, P, key, "function types", "function returning a function pointer").run(
        ["ptr (", T("p"), Rep([", ", T("p")]), ")* (", T("q"), Rep([", ", T("q")]), ")*,"], exact(w, [","]))
    w = lambda R: ("Pointer", ("Fn", sigv(holes(R, "q"), ("Some", ("Pointer", ("Fn", sigv(holes(R, "p"), None)))))))
    Case(ctx, P, key, "function types", "function returning a pointer to a function without result").run(
        ["void (", T("p"), Rep([", ", T("p")]), ")* (", T("q"), Rep([", ", T("q")]), ")*,"], exact(w, [","]))

    # ---- what is no type is not accepted
    def rejected(R, kind, rest, v):
        if kind == "ok":
            return "it is accepted as the type %s" % (fmt(value(R, v)),)
        if kind == "panic":
            return "the parser panics"

    def shorter(prefix_ok):
        return rejected

    def notin(chars):
        return [Lx("other", TEXT & ~cs(chars), TEXT, 1, (), False), ]

    D = "0123456789"
    anyt = anyl("rest")
    near = [
        ("another first character", ["", ("[{<%dfpi.v",)]),
        ("word beginning like double", ["doubl", ("e",)]), ("word beginning like float", ["floa", ("t",)]), ("word beginning like ptr", ["pt", ("r",)]),
        ("i without a width", ["i", (D,)]), ("two dots", ["..", (".",)]),
        ("alias without a name", ["%", (D + "-$._\"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ\x80",)]),
        ("array without a length", ["[", (D,)]), ("array without a blank", ["[", num("n"), (D + " \t",)]), ("array without x", ["[", num("n"), " ", ("x \t",)]),
        ("array without blank after x", ["[", num("n"), " x", (" \t",)]), ("array without element", ["[", num("n"), " x ", ("[{<%dfpi.v \t",)]),
        ("array not closed", ["[", num("n"), " x ", T("e"), ("]*, \t",)]),
        ("array closed by >", ["[", num("n"), " x ", T("e"), ">"]), ("vector closed by ]", ["<", num("n"), " x ", T("e"), "]"]),
        ("vector not closed", ["<", num("n"), " x ", T("e"), (">*, \t",)]),
        ("struct not closed", ["{ ", T("f"), Rep([", ", T("f")]), ("},* \t",)]), ("struct without comma", ["{ ", T("f"), " ", ("}\t, (",)]),
        ("packed struct not closed", ["<{ ", T("f"), " }", (">",)]), ("struct with bracket", ["{ ", T("f"), "]"]),
        ("void alone", ["void"]), ("void and a name", ["void @"]), ("void without a blank", ["void", (" \t",)]),
        ("void function not closed", ["void (", T("p"), Rep([", ", T("p")]), ("),* \t",)]),
    ]
    for name, parts in near:
        sent = []
        for x in parts:
            if isinstance(x, tuple):
                m = TEXT & ~cs(x[0].replace("\x80", ""))
                if "\x80" in x[0]:
                    m &= ~(1 << 128)
                sent += [Lx("other", m, TEXT, 1, (), False)]
            elif isinstance(x, list):
                sent += x
            elif not isinstance(x, str) or x:
                sent.append(x)
        sent = mark_any(sent)
        Case(ctx, P, key, "what is no type is rejected", name).run(sent, rejected)
    printing(ctx, P)
    finish(ctx, P)


def mark_any(sent):
    """the rest of the last lexeme is arbitrary"""
    if sent and isinstance(sent[-1], Lx) and sent[-1].role == "other":
        m = sent[-1].first
        return sent[:-1] + [Lx("other", m, 0), anyl("rest")]
    return sent


def fmt(v, d=0):
    if isinstance(v, tuple) and v and v[0] == "T":
        return "<type %s#%s>" % (v[1], v[2])
    if isinstance(v, tuple) and len(v) == 3 and v[0] == "FnSig":
        return "%s (%s)" % (fmt(v[2][1]) if v[2][1] else "void", fmt(v[1][1]))
    if isinstance(v, tuple) and v and isinstance(v[0], str):
        return v[0] + ("(%s)" % ", ".join(fmt(x) for x in v[1:]) if len(v) > 1 else "")
    if isinstance(v, list):
        return "[%s]" % ", ".join(fmt(x) for x in v)
    return str(v)


# ---- printing
def printing(ctx, P):
    D = P.displays.get("Type")
    F = P.displays.get("FnSig")
    if D is None or F is None:
        raise Incomplete("anchor not found: Display of types")
    V = lambda n, *a: ("adt", "Type", P.variant("Type", n), list(a))
    E = lambda n: ("val", n)
    sig = lambda ins, out: ("adt", "FnSig", 0, order(P, "FnSig", {"inputs": ("vec", ins), "output": pstr.some(out) if out else pstr.NONE}))
    cases = [("alias", V("Alias", E("name")), ['%"', E("name"), '"']),
             ("array", V("Array", E("n"), E("e")), ["[", E("n"), "x", E("e"), "]"]),
             ("vector", V("MVTVector", E("n"), E("e")), ["<", E("n"), "x", E("e"), ">"]),
             ("double", V("Double"), ["double"]), ("float", V("Float"), ["float"]), ("opaque pointer", V("OpaquePointer"), ["ptr"]),
             ("varargs", V("Varargs"), ["..."]), ("integer", V("Integer", E("n")), ["i", E("n")]),
             ("pointer", V("Pointer", E("e")), [E("e"), "*"])]
    for k in (0, 1, 2, 3, 4):
        fs = pstr.L([E("f%d" % i) for i in range(k)])
        fs.open = True
        sep = [x for i, f in enumerate(fs) for x in ([","] if i else []) + [f]]
        cases.append(("struct of %d" % k, V("Struct", ("vec", fs)), ["{"] + sep + ["}"]))
        cases.append(("packed struct of %d" % k, V("PackedStruct", ("vec", fs)), ["<{"] + sep + ["}>"]))
        for o in (None, E("out")):
            w = [o or "void", "("] + sep + [")"]
            cases.append(("function of %d%s" % (k, " with result" if o else ""), V("Fn", sig(fs, o)), w))
            cases.append(("signature of %d%s" % (k, " with result" if o else ""), sig(fs, o), w))
    for name, v, want in cases:
        bad = None
        ch = pstr.Choice()
        n = 0
        while True:
            R = pstr.Run(P, ch)
            R.tape = pstr.Tape(R, [])
            R.writes = []
            n += 1
            try:
                r = R.deref(R.body(D if v[1] == "Type" else F, [v, ("fmtr",)]))
                got = []
                for x in R.writes:
                    if x[0] == "lit":
                        t = "".join(x[1].split())
                        if t:
                            if got and isinstance(got[-1], str):
                                got[-1] += t
                            else:
                                got.append(t)
                    else:
                        got.append(R.deref(x[1]) if isinstance(x[1], tuple) else x)
                w = []
                for x in want:
                    if isinstance(x, str) and w and isinstance(w[-1], str):
                        w[-1] += x
                    else:
                        w.append(x)
                if got != w and not bad:
                    bad = "printed as %s, expected %s" % (got, w)
                P.paths += 1
            except Unknown as e:
                bad = "not decided: %s" % e
            except pstr.Infeasible:
                pass
            except pstr.Panic as e:
                bad = "printing panics: %s" % e
            if n > 200:
                bad = bad or "not decided: too many ways"
                break
            if not ch.advance():
                break
        if bad:
            ctx.violate("printing/%s" % name, "%s: %s" % (name, bad), D["path"])
        else:
            ctx.ok("printing", name)


def order(P, ty, d):
    for p, a in P.adts.items():
        if pstr.base_adt(p) == ty and a.get("local"):
            return [d[f] for f in a["variants"][0]["fields"]]
    raise Incomplete("type %s not found" % ty)


# ---------------------------------------------------------------- C08
KEYWORDS = {"dereferenceable", "dereferenceable_or_null", "alignstack", "sret", "preallocated", "inalloca", "elementtype", "byval",
            "byref", "align", "double", "float", "void", "ptr", "bitcast", "getelementptr", "alias", "global", "constant",
            "call", "invoke", "callbr", "tail", "musttail", "notail", "asm", "undef", "null", "true", "false", "range", "x",
            "initializes", "captures", "nofpclass", "addrspace", "section", "partition", "comdat", "gc", "prefix", "prologue",
            "allocsize", "vscale_range", "memory", "thread_local", "cc", "to", "type", "ifunc", "external_weak"}


def word(role):
    """an attribute, calling convention, linkage .. that is a plain word (a word is no type: `i8`, `float` ..)"""
    return [Lx(role, WORD & ~cs("if"), WORD, 1, KEYWORDS)]


ATTRS = [
    ("no attribute", lambda s: []),
    ("attributes", lambda s: [Rep(s(word("attr")))]),
    ("dereferenceable", lambda s: s(["dereferenceable("] + num("bytes") + [")"])),
    ("dereferenceable_or_null", lambda s: s(["dereferenceable_or_null("] + num("bytes") + [")"])),
    ("align", lambda s: s(["align "] + num("bytes"))),
    ("alignstack", lambda s: s(["alignstack("] + num("bytes") + [")"])),
] + [(w, lambda s, w=w: s([w + "(", T("attr type"), ")"])) for w in ("sret", "preallocated", "inalloca", "elementtype", "byval", "byref")] + [
    ("mixed attributes", lambda s: [Rep(s(word("attr")))] + s(["align "] + num("bytes")) + s(["sret(", T("attr type"), ")"]) + [Rep(s(word("attr2")))]),
]
before_ = lambda a: a + [" "]
after_ = lambda a: [" "] + a

LHS = [("no result", [])] + [("%s result" % n, ["%"] + f("lhs") + [" = "]) for n, f in NAMES]
RES = [("void", ["void"]), ("a type", [T("ret")])]


def lhs_ok(n):
    return "quoted" not in n


def statement_judge(P, want, line_end=True):
    def judge(R, kind, rest, v):
        if kind != "ok":
            return "the line is not understood (%s)" % kind
        got = value(R, v)
        w = want(R)
        if got != w:
            return "it is read as %s, expected %s" % (fmt(got), fmt(w))
        n = R.tape.norm(rest[1])
        if not (n.kind == "ch" and n.mask == NL):
            return "the line is not read to its end"
    return judge


VALUES = [
    ("a local value", ["%"] + ident("val")), ("a numbered value", ["%"] + num("val")), ("a function", ["@"] + ident("val")),
    ("a quoted function", ["@"] + quoted("val")), ("null", ["null"]), ("undef", ["undef"]), ("a number", num("val")),
    ("a negative number", ["-"] + num("val")), ("true", ["true"]), ("false", ["false"]),
    ("a cast", ["bitcast (", T("x1"), " @"] + ident("val") + [" to ", T("x2"), ")"]),
    ("an address", ["getelementptr inbounds (", T("x1"), ", ", T("x2"), " @"] + ident("val") + [
        ", ", T("x3"), " "] + num("i1") + [Rep([", ", T("x4"), " "] + num("i2")), ")"]),
    ("a plain address", ["getelementptr (", T("x1"), ", ", T("x2"), " @"] + ident("val") + [", ", T("x3"), " "] + num("i1") + [")"]),
]


def statements(ctx):
    P = program(ctx)
    key = P.k_stmt
    SP = "  "
    EOL = ["\n", "}"]
    tails = ("", "tail ")

    def plain(sent):
        return [SP] + sent + EOL

    # ---- calls that are understood
    RULE = "calls are read as written"
    for ln, l in LHS:
        if not lhs_ok(ln):
            continue
        for tail in tails:
            for kw in ("call ", "invoke "):
                for nn, nf in NAMES:
                    for rn, r in RES:
                        an, af = ATTRS[1]
                        name = "direct %s%s, %s, %s name, %s" % (tail, kw, ln, nn, rn)
                        Case(ctx, P, key, RULE, name).run(
                            plain(l + [tail + kw] + af(before_) + r + [" @"] + nf("callee") + ["(", anyl("args")]),
                            statement_judge(P, lambda R: ("DirectCall", "<callee>")))
    for an, af in ATTRS:
        for kw in ("call ", "invoke "):
            for rn, r in RES:
                Case(ctx, P, key, RULE, "direct %s, %s, %s" % (kw, an, rn)).run(
                    plain([kw] + af(before_) + r + [" @"] + ident("callee") + ["(", anyl("args")]),
                    statement_judge(P, lambda R: ("DirectCall", "<callee>")))
    # through a local value
    def sig_of(out):
        def f(R):
            o = holes(R, "ret")
            if o and R.hvar.get(("type",) + o[0][1:]) == {P.variant("Type", "Fn")}:
                return ("IndirectCall", ("part", o[0][1], o[0][2], 0))
            return ("IndirectCall", sigv(holes(R, "arg"), ("Some", o[0]) if o else None))
        return f
    arg = lambda v: [T("arg"), " "] + [Rep(before_(word("attr")))] + v
    v0 = ["%"] + ident("val")
    for ln, l in LHS:
        if not lhs_ok(ln):
            continue
        for tail in tails:
            for rn, r in RES:
                for cn, cf in NAMES[::2]:
                    for args_n, args in (("no argument", []), ("arguments", arg(v0) + [Rep([", "] + arg(["%"] + ident("val")))])):
                        name = "indirect %scall, %s, %s, %s name, %s" % (tail, ln, rn, cn, args_n)
                        Case(ctx, P, key, RULE, name).run(
                            plain(l + [tail + "call "] + [Rep(before_(word("cattr")))] + r + [" %"] + cf("callee") + ["("] + args + [")", anyl("more")]),
                            statement_judge(P, sig_of(r)))
    for an, af in ATTRS:
        Case(ctx, P, key, RULE, "indirect call, %s" % an).run(
            plain(["call "] + af(before_) + [T("ret"), " %"] + ident("callee") + ["(", T("arg"), " "] + v0 + [")"]), statement_judge(P, sig_of(1)))
        Case(ctx, P, key, RULE, "indirect call, argument with %s" % an).run(
            plain(["call void %"] + ident("callee") + ["(", T("arg"), " "] + af(before_) + v0 + [", ", T("arg"), " "] + v0 + [")"]), statement_judge(P, sig_of(1)))
    for vn, v in VALUES:
        Case(ctx, P, key, RULE, "indirect call, argument %s" % vn).run(
            plain(["call void %"] + ident("callee") + ["(", T("arg"), " "] + v + [", ", T("arg"), " "] + v + [")"]), statement_judge(P, sig_of(0)))
    # with the whole function type, as calls of variadic functions are written
    for rn, r in RES:
        w = lambda R: ("IndirectCall", sigv(holes(R, "p"), ("Some", holes(R, "ret")[0]) if holes(R, "ret") else None))
        # the result type is a hole, so the function type is spelled with a pointer
        Case(ctx, P, key, RULE, "indirect call with a function type, %s" % rn).run(
            plain(["call "] + (["void"] if r == ["void"] else ["ptr"]) + [" (", T("p"), ", ...) %"] + ident("callee") + ["(", T("arg"), " "] + v0 + [")"]),
            statement_judge(P, lambda R, r=r: ("IndirectCall", sigv(holes(R, "p") + [("Varargs",)], None if r == ["void"] else ("Some", ("OpaquePointer",))))))
    # through a cast constant
    for ln, l in LHS:
        if not lhs_ok(ln):
            continue
        for tail in tails:
            for rn, r in RES:
                for nn, nf in NAMES:
                    want = (lambda R: ("BitcastCall", ("Some", "<callee>"))) if nn != "numbered" else (lambda R: ("BitcastCall", None))
                    Case(ctx, P, key, RULE, "%scall of a cast, %s, %s, %s name" % (tail, ln, rn, nn)).run(
                        plain(l + [tail + "call "] + [Rep(before_(word("cattr")))] + r + [" bitcast (", T("x1"), " @"] + nf("callee") + [
                            " to ", T("x2"), ")(", anyl("args")]), statement_judge(P, want))
    for an, af in ATTRS:
        Case(ctx, P, key, RULE, "call of a cast, %s" % an).run(
            plain(["call "] + af(before_) + ["void bitcast (", T("x1"), " @"] + ident("callee") + [" to ", T("x2"), ")(", anyl("args")]),
            statement_judge(P, lambda R: ("BitcastCall", ("Some", "<callee>"))))
    Case(ctx, P, key, RULE, "call of a cast of an address").run(
        plain(["call void bitcast (", T("y1"), " "] + VALUES[-2][1] + [" to ", T("y2"), ")(", anyl("args")]),
        statement_judge(P, lambda R: ("BitcastCall", ("Some", "<val>"))))
    # inline assembly
    for ln, l in LHS:
        if not lhs_ok(ln):
            continue
        for tail in tails:
            for rn, r in RES:
                Case(ctx, P, key, RULE, "%sinline assembly, %s, %s" % (tail, ln, rn)).run(
                    plain(l + [tail + "call "] + r + [" asm ", Rep(before_(ident("flag"))), '"', Lx("code", NAMECHARS, NAMECHARS), '"', anyl("more")]),
                    statement_judge(P, lambda R: ("Asm", "<code>")))
    Case(ctx, P, key, RULE, "empty inline assembly").run(
        plain(["call void asm ", Rep(before_(ident("flag"))), '""', anyl("more")]), statement_judge(P, lambda R: ("Asm", "")))

    # ---- a call is never skipped as something else
    CALLS = {"DirectCall", "IndirectCall", "BitcastCall", "Asm"}

    def never_skipped(R, kind, rest, v):
        if kind == "ok":
            n = R.tape.norm(rest[1])
            got = value(R, v)
            k = got[0] if isinstance(got, tuple) else got
            if k in CALLS:
                return None
            if n.kind == "ch" and n.mask == NL or n.kind == "lex":
                return "a call is skipped as %s" % fmt(got)
        elif kind == "panic":
            return "the parser panics"
    for ln, l in LHS:
        if not lhs_ok(ln):
            l = ['%"', Lx("lhs", NAMECHARS & ~BLANK, NAMECHARS & ~BLANK), '" = ']
        for t in ("", "tail ", "musttail ", "notail "):
            for kw in ("call ", "invoke ", "callbr "):
                Case(ctx, P, key, "no call is skipped", "%s%s, %s" % (t, kw, ln)).run(plain(l + [t + kw, anyl("rest")]), never_skipped)

    # ---- what is no call
    other = lambda R: ("Other",)
    val = lambda r: ["%"] + ident(r)
    rest = Rep([" ", Lx("token", TEXT & ~BLANK, TEXT & ~BLANK, 1, ("call", "invoke", "callbr"))])
    comma = [", ", T("t2"), " "]
    instr = [
        ("return", ["ret ", T("t"), " "] + val("v")), ("return of nothing", ["ret void"]), ("return of a number", ["ret ", T("t"), " "] + num("v")),
        ("jump", ["br label %"] + ident("l")), ("branch", ["br i1 %"] + ident("c") + [", label %"] + ident("l") + [", label %"] + ident("m")),
        ("trap", ["unreachable"]), ("store", ["store ", T("t"), " "] + val("v") + comma + val("p") + [", align "] + num("n")),
        ("store of a function", ["store ", T("t"), " @"] + ident("v") + comma + val("p")),
        ("store of a cast", ["store ", T("t"), " bitcast (", T("x1"), " @"] + ident("f") + [" to ", T("x2"), ")"] + comma + val("p")),
        ("switch", ["switch ", T("t"), " "] + val("v") + [", label %"] + ident("l") + [" ["]),
        ("switch case", ["i"] + num("w") + [" "] + num("v") + [", label %"] + ident("l")), ("end of switch", ["]"]),
        ("fence", ["fence seq_cst"]), ("resume", ["resume ", T("t"), " "] + val("v")), ("cleanup", ["cleanup"]),
        ("continuation of an invoke", ["to label %"] + ident("l") + [" unwind label %"] + ident("m")),
    ]
    with_lhs = [
        ("load", ["load ", T("t")] + comma + val("p") + [", align "] + num("n")), ("alloca", ["alloca ", T("t"), ", align "] + num("n")),
        ("addition", ["add nuw ", T("t"), " "] + val("a") + [", "] + val("b")), ("comparison", ["icmp eq ", T("t"), " "] + val("a") + [", null"]),
        ("conversion", ["bitcast ", T("t"), " "] + val("a") + [" to ", T("t2")]), ("extension", ["zext ", T("t"), " "] + val("a") + [" to ", T("t2")]),
        ("address", ["getelementptr inbounds ", T("t")] + comma + val("p") + comma + num("n")),
        ("phi", ["phi ", T("t"), " [ "] + val("a") + [", %"] + ident("l") + [" ], [ "] + val("b") + [", %"] + ident("m") + [" ]"]),
        ("selection", ["select i1 "] + val("c") + comma + val("a") + comma + val("b")),
        ("insertion", ["insertvalue ", T("t"), " undef"] + comma + val("a") + [", "] + num("n")),
        ("extraction", ["extractvalue ", T("t"), " "] + val("a") + [", "] + num("n")), ("landing pad", ["landingpad ", T("t")]),
        ("atomic exchange", ["cmpxchg ", T("t"), " "] + val("p") + comma + val("a") + comma + val("b") + [" seq_cst monotonic"]),
    ]
    for name, s in instr + with_lhs:
        ls = [("", [])] if (name, s) in instr else [(ln, l) for ln, l in LHS if l]
        for ln, l in ls:
            if not lhs_ok(ln):
                continue
            for more in (0, 1):
                Case(ctx, P, key, "what is no call is no call", "%s %s%s" % (name, ln, " with metadata" if more else "")).run(
                    plain(l + s + ([",", Rep([" ", Lx("token", TEXT & ~BLANK, TEXT & ~BLANK, 1, ("call", "invoke", "callbr"))])] if more else [])),
                    statement_judge(P, other))
    # labels and comments
    def kind_is(k):
        return statement_judge(P, lambda R: (k,))
    for nn, nf in NAMES:
        Case(ctx, P, key, "what is no call is no call", "%s label" % nn).run(nf("label") + [":"] + EOL, kind_is("Label"))
        Case(ctx, P, key, "what is no call is no call", "%s label with comment" % nn).run(nf("label") + [":" + " " * 5 + ";", anyl("comment")] + EOL, kind_is("Label"))
    Case(ctx, P, key, "what is no call is no call", "comment").run([";", anyl("comment")] + EOL, kind_is("Comment"))
    # ---- the lines of a body, in order
    for bn, b in bodies():
        Case(ctx, P, P.k_item, "one statement per line", bn).run(
            ["define void @"] + ident("name") + ["()", anyl("more")] + b + ["\n", anyl("following", ALL)],
            item_judge(P, lambda R: ("Define", ("Define", ("name", "<name>"), ("sig", sigv([], None)), ("stmts", stmts(R))))))
    finish(ctx, P)


# ---------------------------------------------------------------- C09
def at_tail(R, rest, n_tail):
    """is what is left the last n nodes of the text?"""
    n = R.tape.norm(rest[1])
    left = R.tape.walk_from(n)
    return len(left) == n_tail


def item_judge(P, want):
    def judge(R, kind, rest, v):
        if kind != "ok":
            return "it is not understood (%s)" % kind
        got, w = value(R, v), want(R)
        if got != w:
            return "it is read as %s, expected %s" % (fmt(got), fmt(w))
        n = R.tape.norm(rest[1])
        left = R.tape.walk_from(n)
        if not (len(left) == 2 and left[0].kind == "ch" and left[0].mask == NL):
            return "the line is not read exactly to its end"
    return judge


def nonllvm():
    """forms of a name that does not begin with `llvm.`"""
    l = 1 << ord("l")
    yield "plain", lambda r: [Lx(r, IDENT0 & ~l, IDENT)], lambda r: "<%s>" % r
    yield "plain l", lambda r: ["l", Lx(r, IDENT & ~l, IDENT)], lambda r: "l<%s>" % r
    yield "plain llvm", lambda r: ["llvm", Lx(r, IDENT & ~cs("."), IDENT)], lambda r: "llvm<%s>" % r
    yield "quoted", lambda r: ['"', Lx(r, NAMECHARS & ~l, NAMECHARS), '"'], lambda r: "<%s>" % r
    yield "quoted l", lambda r: ['"l', Lx(r, NAMECHARS & ~l, NAMECHARS), '"'], lambda r: "l<%s>" % r
    yield "numbered", num, lambda r: "<%s>" % r


def stmts(R):
    return [("T", n.hole[1], n.hole[2]) for n in R.walk() if n.kind == "hole" and n.hole[0] == "stmt"]


def bodies():
    S = Hole("stmt", "s")
    return (("one line", [" {\n", S, "\n}"]), ("lines", [" {\n", S, Rep(["\n", S]), "\n}"]),
            ("blank lines", [" {\n", S, Rep(["\n\n", S]), "\n}"]),
            ("lines and blank lines", [" {\n", S, Rep(["\n", Rep(["\n"]), S]), "\n}"]))


def items(ctx):
    P = program(ctx)
    key = P.k_item
    TAIL = ["\n", anyl("following", ALL)]
    RULE = "items are read as written"

    def case(name, sent, want, rule=RULE):
        Case(ctx, P, key, rule, name).run(sent + TAIL, item_judge(P, want))

    K = lambda k: lambda R: (k,)
    more = anyl("rest of the line")
    case("comment", [";", more], K("Comment"))
    case("source file name", ["source_filename = ", more], K("SourceFilename"))
    case("data layout", ["target datalayout = ", more], K("Target"))
    case("triple", ["target triple = ", more], K("Target"))
    case("attribute group", ["attributes #", more], K("Attributes"))
    case("metadata", ["!", more], K("Metadata"))
    case("module assembly", ['module asm "', Lx("code", NAMECHARS, NAMECHARS), '"'], K("ModuleAsm"))
    for nn, nf in NAMES[:2]:
        case("type definition, %s name" % nn, ["%"] + nf("name") + [" = ", more], K("Type"))
    for nn, nf in NAMES:
        for w in ("global", "constant"):
            case("%s, %s name" % (w, nn), ["@"] + nf("name") + [" = ", Rep(before_(word("attr"))), w + " ", more], K("Global"))
        for n2, f2 in NAMES:
            case("alias, %s name of %s name" % (nn, n2),
                 ["@"] + nf("name") + [" = ", Rep(before_(word("attr"))), "alias ", T("t1"), ", ", T("t2"), " @"] + f2("target"),
                 lambda R: ("Alias", "<name>", "<target>"))
    for an, af in ATTRS:
        case("global with %s" % an, ["@"] + ident("name") + [" = "] + af(before_) + ["global ", more], K("Global"))
        case("alias with %s" % an, ["@"] + ident("name") + [" = "] + af(before_) + ["alias ", T("t1"), ", ", T("t2"), " @"] + ident("target"),
             lambda R: ("Alias", "<name>", "<target>"))

    # ---- declarations
    def sig_(R):
        o = holes(R, "ret")
        return sigv(holes(R, "p"), ("Some", o[0]) if o else None)

    def declare(name):
        return lambda R: ("Declare", ("Declare", ("name", name), ("sig", ("Some", sig_(R)))))
    par = lambda attrs: [T("p")] + attrs
    PARAMS = (("no parameter", []), ("one parameter", par([])), ("parameters", par([]) + [Rep([", "] + par([]))]),
              ("parameters with attributes", par([Rep(after_(word("pattr")))]) + [Rep([", "] + par([Rep(after_(word("pattr")))]))]))
    for rn, r in RES:
        for nn, nf, nv in nonllvm():
            for pn, p in PARAMS:
                if pn != "parameters" and nn not in ("plain", "quoted"):
                    continue
                case("declaration, %s, %s name, %s" % (rn, nn, pn),
                     ["declare ", Rep(before_(word("attr")))] + r + [" @"] + nf("name") + ["("] + p + [")", more], declare(nv("name")))
        for q in ("", '"'):
            case("intrinsic, %s%s" % (rn, ", quoted" if q else ""),
                 ["declare ", Rep(before_(word("attr")))] + r + [" @" + q + "llvm.", Lx("name", IDENT, IDENT), q + "(", more],
                 lambda R: ("Declare", ("Declare", ("name", "llvm.<name>"), ("sig", None))))
    for an, af in ATTRS:
        for rn, r in RES:
            case("declaration with %s, %s" % (an, rn), ["declare "] + af(before_) + r + [" @", Lx("name", IDENT0 & ~cs("l"), IDENT), "(", T("p"), ")", more],
                 declare("<name>"))
        case("declaration, parameter with %s" % an, ["declare void @", Lx("name", IDENT0 & ~cs("l"), IDENT), "(", T("p")] + af(after_) + [", ", T("p"), ")", more],
             declare("<name>"))

    # ---- definitions
    def define(name):
        return lambda R: ("Define", ("Define", ("name", name), ("sig", sig_(R)), ("stmts", stmts(R))))

    BODY1 = bodies()[0][1]
    PN = [("unnamed", [])] + [("%s name" % nn, [" %"] + nf("pname")) for nn, nf in NAMES]
    for bn, b in bodies():
        case("definition, %s" % bn, ["define void @"] + ident("name") + ["()", more] + b, define("<name>"))
    for rn, r in RES:
        for nn, nf in NAMES:
            for pn, p in PN:
                for cn, l in (("one parameter", [T("p")] + p), ("parameters", [T("p")] + p + [Rep([", ", T("p")] + p)])):
                    case("definition, %s, %s function name, %s, %s" % (rn, nn, cn, pn),
                         ["define ", Rep(before_(word("attr")))] + r + [" @"] + nf("name") + ["("] + l + [")", more] + BODY1, define("<name>"))
            case("definition, %s, %s function name, no parameter" % (rn, nn),
                 ["define ", Rep(before_(word("attr")))] + r + [" @"] + nf("name") + ["()", more] + BODY1, define("<name>"))
    for an, af in ATTRS:
        for rn, r in RES:
            case("definition with %s, %s" % (an, rn), ["define "] + af(before_) + r + [" @"] + ident("name") + ["(", T("p"), ")", more] + BODY1, define("<name>"))
        for pn, p in PN:
            case("definition, parameter with %s, %s" % (an, pn),
                 ["define void @"] + ident("name") + ["(", T("p")] + af(after_) + p + [", ", T("p")] + p + [")", more] + BODY1, define("<name>"))

    # ---- what cannot be an item is not taken for one
    def not_item(R, kind, rest, v):
        if kind == "ok":
            return "it is read as %s" % fmt(value(R, v))
        if kind == "panic":
            return "the parser panics"
    for name, sent in [
            ("another first character", [Lx("other", TEXT & ~cs(";st%@da!m"), 0), anyl("rest")]),
            ("a definition without body", ["define void @"] + ident("name") + ["()\n"] + [Lx("other", TEXT & ~cs("}"), 0), "\n"]),
            ("a definition that is not closed", ["define void @"] + ident("name") + ["() {\n", Hole("stmt", "s"), Rep(["\n", Hole("stmt", "s")])]),
            ("a declaration without a name", ["declare void ", Lx("other", TEXT & ~cs("@(") & ~BLANK, 0), anyl("rest")]),
            ("a declaration that is not closed", ["declare void @", Lx("name", IDENT0 & ~cs("l"), IDENT), "(", T("p"), Rep([", ", T("p")]), "\n"]),
            ("a parameter that is no type", ["declare void @", Lx("name", IDENT0 & ~cs("l"), IDENT), "(", T("p"), ", ",
                                            Lx("other", TEXT & ~cs("[{<%dfpi.v") & ~BLANK, 0), anyl("rest", ALL)])]:
        Case(ctx, P, key, "what is no item is no item", name).run(sent, not_item)

    # ---- the module
    k_mod = module_key(P)
    I = lambda r: Hole("item", r)

    def module(R, kind, rest, v):
        if kind != "ok":
            return "the module is not read (%s)" % kind
        got = value(R, v)
        w = [("T", n.hole[1], n.hole[2]) for n in R.walk() if n.kind == "hole" and n.hole[0] == "item"]
        if got != w:
            return "its items are %s, expected %s" % (fmt(got), fmt(w))

    def no_module(R, kind, rest, v):
        if kind == "ok":
            return "a module that is not read to its end is accepted"
        if kind == "panic":
            return "the parser panics"
    ends = (("", []), ("line end", ["\n"]), ("blank lines", ["\n\n", Rep(["\n"])]))
    for en, e in ends:
        for sn, sep in (("lines", ["\n"]), ("blank lines", ["\n", Rep(["\n"])])):
            Case(ctx, P, k_mod, "a module is all its items", "items on %s, %s" % (sn, en or "no line end")).run([I("i"), Rep(sep + [I("i")])] + e, module)
        for rest_n, rest in (("something else", [Lx("other", TEXT & ~cs(";st%@da!m"), 0), anyl("rest", ALL)]),):
            if e:
                Case(ctx, P, k_mod, "a module is read to its end", "%s after items, %s" % (rest_n, en)).run([I("i"), Rep(["\n", I("i")])] + e + rest, no_module)
    Case(ctx, P, k_mod, "a module is read to its end", "something else after an item").run(
        [I("i"), Lx("other", ALL & ~NL & ~CR, 0), anyl("rest", ALL)], no_module)
    Case(ctx, P, k_mod, "a module is read to its end", "nothing but something else").run(
        [Lx("other", TEXT & ~cs(";st%@da!m"), 0), anyl("rest", ALL)], no_module)
    finish(ctx, P)


def module_key(P):
    """the function that reads a whole module"""
    c = [k for k, b in P.bodies.items() if b["kind"] != "Closure" and "#promoted" not in k and b["argc"] == 1
         and b["locals"][0][0].startswith("std::result::Result<std::vec::Vec<ir::item::Item")]
    if len(c) > 1:
        refs = P.refs()
        used = {k for o, ks in refs.items() if o not in c for k in ks}
        c = [k for k in c if k in used]
    if len(c) != 1:
        raise Incomplete("anchor not found: the parser of modules")
    return c[0]
