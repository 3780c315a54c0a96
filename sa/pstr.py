"""Abstract interpretation of parsers over abstract strings.

The input of a parser is a *tape*: a list of cells, each a character with a set of possible values, a
run of characters from a set (any length), a hole for the text of a whole nonterminal (a type, a
statement, an item), or a repetition of a body.  One tape thus stands for infinitely many texts.  The
MIR of the parsing functions is interpreted over it; where the outcome of a step depends on what is
not determined, all outcomes are followed and each refines the tape.  The combinators of nom and the
string functions used are modelled exactly.  A repetition is handled by induction: one application of
the repeated parser must consume exactly one body."""
import json
import re
import time

NLETTERS = 130  # 0..127 ASCII, 128 a non-ASCII letter, 129 another non-ASCII character
ALL = (1 << NLETTERS) - 1
NL = 1 << 10
CR = 1 << 13
TEXT = ALL & ~NL & ~CR & ~1  # no line ends, no NUL


def cs(s):
    m = 0
    for c in s:
        m |= 1 << ord(c)
    return m


DIGIT = cs("0123456789")
ALPHA = cs("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
UALPHA = ALPHA | 1 << 128
UALNUM = UALPHA | DIGIT
WORD = ALPHA | cs("_")
IDENT0 = ALPHA | cs("-$._")
IDENT = IDENT0 | DIGIT
BLANK = cs(" \t")


def members(m):
    return [i for i in range(NLETTERS) if m >> i & 1]


# words that do not stand alone in the text of a type (an alias with a quoted name that has blanks aside)
TYPE_WORDS_NOT = ("call", "invoke", "callbr", "tail", "musttail", "notail")


class Incomplete(Exception):
    pass


class Infeasible(Exception):
    pass


class Panic(Exception):
    """the interpreted code panics"""


class Unknown(Exception):
    """the code does something the tape gives no answer to"""


# ---------------------------------------------------------------- sentences
class Lx:
    """a lexeme: first character, further characters, never one of the excluded words"""

    def __init__(self, role, first, rest, min=1, exclude=(), any=False):
        self.role, self.first, self.rest, self.min, self.exclude, self.any = role, first, rest, min, set(exclude), any


class Hole:
    def __init__(self, kind, role):
        self.kind, self.role = kind, role


class Rep:
    def __init__(self, body):
        self.body = body


def anyl(role="any", mask=TEXT):
    return Lx(role, mask, mask, 0, (), True)


class Node:
    __slots__ = ("kind", "mask", "group", "next", "hole", "rep", "any", "lit", "role", "cand", "prod")

    def __init__(self, kind, **k):
        self.kind = kind  # ch, lex, hole, rep, empty, end, tt
        self.mask = 0
        self.group = self.next = self.hole = self.rep = self.role = self.prod = self.cand = None
        self.any = False
        self.lit = None
        for a, v in k.items():
            setattr(self, a, v)


class Group:
    def __init__(self, role, exclude, n):
        self.role, self.exclude, self.n = role, set(exclude), n
        self.noprefix = set()


class Tape:
    def __init__(self, run, sentence):
        self.run = run
        self.groups = []
        self.nholes = 0
        self.end = Node("end")
        self.head = self._build(sentence, self.end)

    def _build(self, sent, nxt):
        for e in reversed(sent):
            nxt = self._elem(e, nxt)
        return nxt

    def _elem(self, e, nxt):
        if isinstance(e, str):
            for c in reversed(e):
                nxt = Node("ch", mask=1 << ord(c), next=nxt, lit=c)
            return nxt
        if isinstance(e, Lx):
            g = Group(e.role, e.exclude, len(self.groups))
            self.groups.append(g)
            nxt = Node("lex", mask=e.rest, group=g, next=nxt, any=e.any)
            if e.min:
                nxt = Node("ch", mask=e.first, group=g, next=nxt)
            return nxt
        if isinstance(e, Hole):
            self.nholes += 1
            return Node("hole", hole=(e.kind, e.role, self.nholes), next=nxt, role=e.role)
        if isinstance(e, Rep):
            return Node("rep", rep=e, next=nxt)
        raise TypeError(e)

    def walk_from(self, n):
        out = []
        while n is not None and n.kind != "end":
            if n.kind != "empty":
                out.append(n)
            n = n.next
        return out

    # positions are nodes; skip over what is empty
    def norm(self, n):
        while n.kind == "empty":
            n = n.next
        return n

    def unfold(self, n):
        """the repetition at n becomes one body followed by the repetition"""
        self.run.unfolds += 1
        if self.run.unfolds > 14:
            raise Unknown("a repetition is read without end")
        rep = Node("rep", rep=n.rep, next=n.next)
        b = self._build(n.rep.body, rep)
        self._become(n, b)
        return rep

    @staticmethod
    def _become(n, b):
        for a in Node.__slots__:
            setattr(n, a, getattr(b, a))

    def split_lex(self, n):
        """the run at n becomes one character followed by the run"""
        r = Node("lex", mask=n.mask, group=n.group, next=n.next, any=n.any)
        n.kind, n.next, n.any = "ch", r, False

    def peek(self, n, mask=ALL):
        """the node of the next character, or None at the end of the text (or in the text of a hole, if it is not in mask)"""
        while True:
            n = self.norm(n)
            if n.kind == "end":
                return None
            if n.kind == "ch":
                return n
            if n.kind == "lex" and n.any:
                # somewhere in an arbitrary text
                if self.run.choose(2, "arbitrary text ends"):
                    n = n.next
                    continue
                return Node("ch", mask=n.mask, next=n, group=n.group)
            if n.kind == "lex":
                if not n.mask or self.run.choose(2, "empty"):
                    n.kind = "empty"
                    continue
                self.split_lex(n)
                return n
            if n.kind == "rep":
                if self.run.choose(2, "repetition ends"):
                    n.kind = "empty"
                    continue
                self.unfold(n)
                continue
            if n.kind == "hole":
                return self.open_hole(n, mask)
            if n.kind == "tt":
                raise Unknown("the inside of a type is read")
            raise AssertionError(n.kind)

    def open_hole(self, n, mask=ALL):
        """the next character of the text a hole stands for, if it is in mask; otherwise None"""
        if n.prod is None:
            prods = self.run.prods.get(n.hole[0])
            if prods is None:
                raise Unknown("the inside of a %s is read" % n.hole[0])
            cand = n.cand or tuple(range(len(prods)))
            yes = tuple(k for k in cand if cs(prods[k][1][0][0]) & mask)
            no = tuple(k for k in cand if k not in yes)
            if not yes:
                return None
            self.run.opened.append((n, n.cand))
            if no and self.run.choose(2, "other production"):
                n.cand = no
                return None
            opaque, sent = prods[yes[self.run.choose(len(yes), "production")]]
            n.prod = self._build(sent, Node("tt", hole=n.hole, next=n.next) if opaque else n.next)
        return self.peek(n.prod)


class Choice:
    """depth-first enumeration of all sequences of choices by re-execution"""

    def __init__(self):
        self.path, self.pos, self.log = [], 0, []
        self.owner = {}

    def prefix(self):
        return tuple(x[0] for x in self.path[:self.pos])

    def merge(self, key):
        """the same situation reached by other choices is followed only once"""
        me = self.prefix()
        if self.owner.setdefault(key, me) != me:
            raise Infeasible("merged")

    def choose(self, n, what):
        if n <= 1:
            return 0
        if self.pos == len(self.path):
            self.path.append([0, n])
        v = self.path[self.pos][0]
        self.pos += 1
        self.log.append((what, v))
        return v

    def advance(self):
        while self.path:
            self.path[-1][0] += 1
            if self.path[-1][0] < self.path[-1][1]:
                self.pos, self.log = 0, []
                return True
            self.path.pop()
        return False


# ---------------------------------------------------------------- values
# int/bool/char: int; string literal: ("lit", s); slice of the tape: ("str", a, b)
# ("adt", type, variant, [fields]); ("tup", [..]); ("fn", const); ("closure", key, [captures])
# ("comb", name, [args]); ("vec", [..]); ("ref", get, set); ("sym", what)

def adt(ty, v, *f):
    return ("adt", ty, v, list(f))


def ok(v):
    return adt("Result", 0, v)


def some(v):
    return adt("Option", 1, v)


NONE = adt("Option", 0)


def perr(kind=1):
    return adt("Result", 1, adt("nom::Err", kind, ("sym", "error")))


def tup(*a):
    return ("tup", list(a))


def base(ty):
    return re.sub(r"<.*", "", ty).split("::")[-1] if not ty.startswith("nom::Err") else "nom::Err"


class L(list):
    """a list that a loop of the parser has filled; open: the number of its elements is not known"""
    open = False

    @staticmethod
    def of(l, items):
        r = L(items)
        r.open = getattr(l, "open", False)
        return r


class Frame:
    __slots__ = ("vals",)

    def __init__(self, n):
        self.vals = [None] * n


class Ref:
    __slots__ = ("fr", "loc", "proj")

    def __init__(self, fr, loc, proj):
        self.fr, self.loc, self.proj = fr, loc, proj


class Run:
    """one execution under a sequence of choices"""

    LIMIT = 60000

    def __init__(self, P, choice):
        self.P, self.choice = P, choice
        self.unfolds = 0
        self.opened = []
        self.hvar = {}
        self.steps = 0
        self.depth = 0
        self.prods = P.prods
        self.writes = None
        self.tape = None

    def choose(self, n, what):
        return self.choice.choose(n, what)

    def suffix(self, kind):
        return self.P.suffixes.get(kind, [])

    def variants(self, hole):
        if hole not in self.hvar:
            self.hvar[hole] = set(range(self.P.nvariants(hole[0])))
        return self.hvar[hole]

    # ------------------------------------------------ places
    def deref(self, v):
        while isinstance(v, Ref):
            v = self.read(v.fr, v.loc, v.proj)
        return v

    def read(self, fr, loc, proj):
        v = fr.vals[loc]
        for i, p in enumerate(proj):
            v = self.step(v, p, fr)
        return v

    def step(self, v, p, fr):
        k = p[0] if isinstance(p, list) else p
        if k == "*":
            if isinstance(v, Ref):
                return self.read(v.fr, v.loc, v.proj)
            return v
        v = self.deref(v)
        if k == "d":
            return v
        if k == "f":
            if v is None:
                raise Unknown("read of an unset place")
            if v[0] == "adt":
                return v[3][p[1]]
            if v[0] in ("tup", "closure"):
                return v[-1][p[1]]
            if v[0] == "sym":
                return ("sym", ("field", v[1], p[1]))
            if v[0] == "hole":
                return ("part", v[1].hole, p[1])
            raise Unknown("field of %r" % (v[0],))
        if k == "i":
            idx = self.deref(fr.vals[p[1]])
            return v[1][idx]
        raise Unknown("projection %r" % (p,))

    def write(self, fr, loc, proj, val):
        if not proj:
            fr.vals[loc] = val
            return
        # writing through a reference
        for i, p in enumerate(proj):
            if (p[0] if isinstance(p, list) else p) == "*":
                b = self.read(fr, loc, proj[:i])
                if isinstance(b, Ref):
                    return self.write(b.fr, b.loc, list(b.proj) + list(proj[i + 1:]), val)
        fr.vals[loc] = self.upd(fr.vals[loc], list(proj), val, fr)

    def upd(self, v, proj, val, fr):
        if not proj:
            return val
        p = proj[0]
        k = p[0] if isinstance(p, list) else p
        if k in ("*", "d"):
            return self.upd(v, proj[1:], val, fr)
        if k == "f":
            l = list(v[-1])
            l[p[1]] = self.upd(l[p[1]], proj[1:], val, fr)
            return tuple(v[:-1]) + (l,)
        raise Unknown("write to %r" % (p,))

    def operand(self, fr, o):
        if o[0] in ("cp", "mv"):
            return self.read(fr, o[1][0], o[1][1])
        return self.const(o[1])

    def const(self, c):
        k = c.get("k")
        if k == "int":
            return c["v"]
        if k == "str":
            return ("lit", c["v"])
        if k == "fn":
            return ("fn", c)
        if k == "zst":
            if "closure" in c.get("ty", "") and c.get("key"):
                return ("closure", c["key"], [])
            return tup()
        if k in ("promoted", "const"):
            key = c["of"] + ("#promoted%d" % c["idx"] if k == "promoted" else "")
            b = self.P.bodies.get(key)
            if b is None:
                raise Unknown("constant " + key)
            return self.body(b, [])
        if k == "ptr":
            return ("bytes", c)
        raise Unknown("constant %r" % (c,))

    # ------------------------------------------------ interpretation
    def body(self, b, args):
        self.P.used.add(b["path"])
        self.depth += 1
        if self.depth > 120:
            raise Unknown("unbounded recursion in " + b["path"])
        fr = Frame(len(b["locals"]))
        for i, a in enumerate(args):
            fr.vals[i + 1] = a
        bl = 0
        while True:
            self.steps += 1
            if self.steps > self.LIMIT:
                raise Unknown("unbounded loop in " + b["path"])
            B = b["blocks"][bl]
            for s in B["s"]:
                if s[0] == "=":
                    self.write(fr, s[1][0], s[1][1], self.rvalue(fr, s[2]))
                elif s[0] in ("live", "dead", "nop", "fake", "ret", "asc"):
                    pass
                elif s[0] == "setdisc":
                    raise Unknown("set discriminant")
            t = B["t"]
            k = t[0]
            if k == "goto":
                bl = t[1]
            elif k == "drop":
                bl = t[2]
            elif k == "ret":
                self.depth -= 1
                return fr.vals[0] if fr.vals[0] is not None else tup()
            elif k == "switch":
                v = self.deref(self.operand(fr, t[1]))
                bl = self.switch(v, t)
            elif k == "assert":
                bl = self.assert_(fr, t)
            elif k == "call":
                f = self.operand(fr, t[1])
                a = [self.operand(fr, x) for x in t[2]]
                r = self.call(f, a)
                if t[4] is None:
                    raise Panic("diverging call")
                self.write(fr, t[3][0], t[3][1], r)
                bl = t[4]
            elif k in ("false", "falseedge", "falseunwind"):
                bl = t[1]
            elif k == "unreach":
                raise Infeasible("unreachable")
            else:
                raise Unknown("terminator " + k)

    def assert_(self, fr, t):
        v = self.deref(self.operand(fr, t[1]))
        want = t[2] if isinstance(t[2], bool) else True
        if isinstance(v, int):
            if bool(v) != want:
                raise Panic("assertion")
        for x in reversed(t):
            if isinstance(x, int) and not isinstance(x, bool):
                return x
        raise Unknown("assert")

    def switch(self, v, t):
        cases, default = t[2], t[3]
        if isinstance(v, tuple) and v[0] == "uni":
            return default
        if isinstance(v, (int, bool)):
            for c, b in cases:
                if c == int(v):
                    return b
            return default
        if isinstance(v, tuple) and v[0] == "charset":
            # a character of the tape compared with constants
            n = v[1]
            for c, b in cases:
                if self.match_node(n, 1 << c if c < 128 else 0):
                    return b
            return default
        if isinstance(v, tuple) and v[0] == "hdisc":
            # the kind of a type that is not known
            left = self.variants(v[1])
            for c, b in cases:
                if c not in left:
                    continue
                if len(left) == 1 or not self.choose(2, "kind of type"):
                    self.hvar[v[1]] = {c}
                    return b
                left = self.hvar[v[1]] = left - {c}
            return default
        if isinstance(v, tuple) and v[0] == "sym":
            bs = [b for _, b in cases] + ([default] if default is not None else [])
            key = ("switch", v[1])
            if key in self.P.symdec:
                raise Unknown("switch on " + str(v))
            return bs[self.choose(len(bs), "opaque branch")]
        raise Unknown("switch on %r" % (v,))

    def rvalue(self, fr, r):
        k = r[0]
        if k == "use":
            return self.operand(fr, r[1])
        if k == "ref" or k == "addr":
            loc, proj = r[2]
            # re-borrow of a whole reference
            for i in range(len(proj) - 1, -1, -1):
                if (proj[i][0] if isinstance(proj[i], list) else proj[i]) == "*":
                    b = self.read(fr, loc, proj[:i])
                    if isinstance(b, Ref):
                        return Ref(b.fr, b.loc, list(b.proj) + list(proj[i + 1:]))
                    if i == len(proj) - 1:
                        return b
                    v = b
                    for p in proj[i + 1:]:
                        v = self.step(v, p, fr)
                    return v
            return Ref(fr, loc, list(proj))
        if k == "disc":
            v = self.deref(self.read(fr, r[1][0], r[1][1]))
            if v is None:
                raise Unknown("discriminant of an unset place")
            if v[0] == "adt":
                return v[2]
            if v[0] == "sym":
                return ("sym", ("disc", v[1]))
            if v[0] == "hole":
                return ("hdisc", v[1].hole)
            raise Unknown("discriminant of %r" % (v[0],))
        if k == "agg":
            a = r[1]
            ops = [self.operand(fr, o) for o in r[2]]
            if a[0] == "tuple":
                return tup(*ops)
            if a[0] == "array":
                return ("vec", ops)
            if a[0] == "closure":
                return ("closure", a[1], ops)
            if a[0] == "adt":
                return ("adt", base_adt(a[1]), a[2], ops)
            raise Unknown("aggregate " + a[0])
        if k == "bin":
            return self.binop(r[1], self.deref(self.operand(fr, r[2])), self.deref(self.operand(fr, r[3])))
        if k == "un":
            v = self.deref(self.operand(fr, r[2]))
            if r[1] in ("Not", "!") and isinstance(v, int):
                return int(not v)
            raise Unknown("unary")
        if k == "cast":
            return self.operand(fr, [x for x in r[1:] if isinstance(x, list)][0])
        if k == "len":
            v = self.deref(self.read(fr, r[1][0], r[1][1]))
            if v[0] == "vec":
                return len(v[1])
        raise Unknown("rvalue %r" % (k,))

    def binop(self, op, a, b):
        op = op.lower()
        if isinstance(a, tuple) and a[0] == "uni":
            a = 0xE4  # compares like any character beyond ASCII
        if isinstance(b, tuple) and b[0] == "uni":
            b = 0xE4
        if isinstance(a, tuple) and a[0] == "charset" and isinstance(b, int):
            if op in ("eq", "ne"):
                r = self.match_node(a[1], 1 << b if b < 128 else 0)
                return int(r == (op == "eq"))
            if op in ("lt", "le", "gt", "ge"):
                f = {"lt": lambda x: x < b, "le": lambda x: x <= b, "gt": lambda x: x > b, "ge": lambda x: x >= b}[op]
                m = 0
                for i in range(NLETTERS):
                    if f(i):
                        m |= 1 << i
                return int(self.match_node(a[1], m))
        if isinstance(b, tuple) and b[0] == "charset" and isinstance(a, int):
            return self.binop({"lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}.get(op, op), b, a)
        if isinstance(a, int) and isinstance(b, int):
            f = {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b,
                 "add": a + b, "sub": a - b, "mul": a * b, "bitand": a & b, "bitor": a | b, "bitxor": a ^ b}
            if op in f:
                return int(f[op])
            if op in ("addwithoverflow", "subwithoverflow", "mulwithoverflow"):
                return tup(int({"a": a + b, "s": a - b, "m": a * b}[op[0]]), 0)
        if isinstance(a, tuple) and a[0] == "off" or isinstance(b, tuple) and b[0] == "off":
            return self.cmp_off(op, a, b)
        if any(isinstance(x, tuple) and x[0] == "sym" for x in (a, b)):
            if op in ("eq", "ne", "lt", "le", "gt", "ge"):
                return self.choose(2, "opaque comparison")
            return tup(self.sym(op), 0) if op.endswith("withoverflow") else self.sym(op)
        raise Unknown("operation %s on %r, %r" % (op, str(a)[:40], str(b)[:40]))

    def cmp_off(self, op, a, b):
        raise Unknown("arithmetic on offsets")

    # ------------------------------------------------ calls
    def call(self, f, args):
        f = self.deref(f)
        if f[0] == "closure":
            b = self.P.bodies[f[1]]
            a = [self.deref(x) if i == 0 and False else x for i, x in enumerate(args)]
            if len(a) != b["argc"] - 1 and len(a) == 1 and self.deref(a[0])[0] == "tup":
                a = list(self.deref(a[0])[1])
            return self.body(b, [f] + a)
        if f[0] == "comb":
            return self.apply(f, self.deref(args[0]))
        if f[0] != "fn":
            raise Unknown("call of %r" % (f[0],))
        c = f[1]
        key = c.get("local")
        if key in self.P.nonterm and args:
            return self.nonterminal(key, args)
        if key and key in self.P.bodies:
            b = self.P.bodies[key]
            if self.P.is_parser(key) and self.at_any(args[0]):
                return self.any_result(args[0], "parser")
            return self.body(b, args)
        return self.library(c, args)

    def at_any(self, i):
        i = self.deref(i)
        if i[0] != "str":
            return False
        n = self.tape.norm(i[1])
        return n.kind == "lex" and n.any

    def any_result(self, i, what, can_fail=True):
        """some prefix of an arbitrary text is consumed, or the parser fails"""
        i = self.deref(i)
        if can_fail and self.choose(2, "accepts"):
            return perr()
        return ok(tup(i, self.sym(what)))

    def sym(self, what):
        self.nsym = getattr(self, "nsym", 0) + 1
        return ("sym", (what, self.nsym))

    def slice(self, a, b):
        """the text between two positions"""
        n = self.tape.norm(b)
        if n.kind == "lex" and n.any:
            return self.sym("text")
        return ("str", a, b)

    def nonterminal(self, key, args):
        kind = self.P.nonterm[key]
        i = self.deref(args[0])
        n = self.tape.norm(i[1])
        while n.kind == "rep":
            if self.choose(2, "repetition ends"):
                n.kind = "empty"
            else:
                self.tape.unfold(n)
            n = self.tape.norm(n)
        if n.kind == "hole" and n.hole[0] == kind:
            if kind == "type":
                self.check_follow(n.next)
            return ok(tup(("str", n.next, i[2]), ("hole", n)))
        if n.kind == "lex" and n.any:
            return self.any_result(args[0], kind)
        return self.body(self.P.bodies[key], args)

    def check_follow(self, n):
        """a type must not be continued by what follows"""
        m, q = self.first(n)
        if m & cs("*"):
            raise Unknown("a type hole is followed by *")
        if q is not None and m & BLANK and self.first(q)[0] & cs("("):
            raise Unknown("a type hole is followed by an argument list")

    def first(self, n):
        """over-approximated first characters after n, and the node after a determined one"""
        n = self.tape.norm(n)
        if n.kind == "ch":
            return n.mask, n.next
        if n.kind == "end":
            return 0, None
        if n.kind == "lex":
            if n.any:
                return 0, None  # an arbitrary rest never continues a type (see P.first)
            m, q = self.first(n.next)
            return m | n.mask, None
        if n.kind == "hole":
            return 0, None
        if n.kind == "rep":
            t = Tape(self, list(n.rep.body))
            a, qa = self.first(t.head)
            b, qb = self.first(n.next)
            for q in (qa, qb):
                if q is not None and (a | b) & BLANK and self.first(q)[0] & cs("("):
                    raise Unknown("a type hole is followed by an argument list")
            return a | b, None
        return 0, None

    # ------------------------------------------------ primitive parsers on the tape
    def match_node(self, n, mask):
        """is the character at node n in mask? refines the node"""
        if n.mask & ~mask == 0:
            return True
        if n.mask & mask == 0:
            return False
        if self.choose(2, "character"):
            n.mask &= ~mask
            return False
        n.mask &= mask
        return True

    def maybe(self, n):
        """over-approximated set of the next character at n"""
        n = self.tape.norm(n)
        if n.kind == "ch":
            return n.mask
        if n.kind == "lex":
            return n.mask | self.maybe(n.next)
        if n.kind == "rep":
            return self.maybe(Tape(self, list(n.rep.body)).head) | self.maybe(n.next)
        if n.kind == "hole":
            if n.prod is not None:
                return self.maybe(n.prod)
            m = self.P.firsts.get(n.hole[0])
            return ALL if m is None else m
        if n.kind == "end":
            return 0
        return ALL

    def take1(self, i, mask):
        """-> the node of the next character if it is in mask, or None"""
        n = self.tape.norm(i[1])
        if n.kind == "lex" and n.any:
            m = n.mask & mask
            if not m and not self.maybe(n.next) & mask or self.choose(2, "arbitrary text"):
                return None
            return Node("ch", mask=m, next=n, group=n.group)
        if not self.at_end(i) and not self.maybe(i[1]) & mask:
            return None
        n = self.tape.peek(i[1], mask) if not self.at_end(i) else None
        if n is None or not self.match_node(n, mask):
            return None
        return n

    def at_end(self, i):
        return self.tape.norm(i[1]) is self.tape.norm(i[2])

    def take_while(self, i, mask):
        """the longest prefix of characters in mask -> (node after, nonempty)"""
        T = self.tape
        n = i[1]
        some_ = False
        while True:
            n = T.norm(n)
            if n is T.norm(i[2]):
                return n, some_
            if n.kind in ("rep", "hole") and not self.maybe(n) & mask:
                return n, some_
            if n.kind == "tt" and n.lit == "word" and not mask & ~(BLANK | NL | CR):
                return n, some_
            if n.kind == "lex" and n.any:
                k = self.choose(3, "arbitrary text")
                if k == 2:
                    n = n.next
                    some_ = True
                    continue
                if k == 1 and not n.mask & mask:
                    raise Infeasible("no such character")
                return n, some_ or k == 1
            if n.kind == "lex" and n.mask:
                if n.mask & ~mask == 0:
                    # all of it; may be empty
                    if not some_:
                        if self.choose(2, "empty"):
                            n.kind = "empty"
                            continue
                        T.split_lex(n)
                        continue
                    n = n.next
                    continue
                if n.mask & mask:
                    # prefix in mask, then either the end of the run or a character outside
                    rest = Node("lex", mask=n.mask, group=n.group, next=n.next, any=n.any)
                    inm, outm = n.mask & mask, n.mask & ~mask
                    if self.choose(2, "run stops"):
                        out = Node("ch", mask=outm, group=n.group, next=rest)
                        n.mask, n.any, n.next = inm, False, out
                    else:
                        n.mask, n.any = inm, False
                    continue
                # nothing of it
                if self.choose(2, "empty"):
                    n.kind = "empty"
                    continue
                T.split_lex(n)
                return n, some_
            if n.kind == "ch":
                if not self.match_node(n, mask):
                    return n, some_
                some_ = True
                n = n.next
                continue
            if n.kind in ("hole", "tt") and (mask | BLANK | NL | CR) & TEXT == TEXT and not mask & NL:
                # the text of a type, skipped over
                if mask & BLANK:
                    some_ = True
                    n = n.next
                    continue
                if n.kind == "hole":
                    if T.peek(n, mask) is None:
                        return n, some_
                    n = n.prod
                    continue
                some_ = True
                if self.choose(2, "type text has a blank"):
                    n = n.next
                    continue
                tt = Node("tt", hole=n.hole, next=n.next, lit="word")
                n.next = Node("ch", mask=cs(" "), next=tt, lit=" ")
                return n.next, some_
            m = T.peek(n, mask)
            if m is None:
                return n, some_
            if m is not n and n.kind == "hole":
                # first characters of a hole
                n = m
                continue
            n = m

    def apply_take_while(self, i, mask, min1):
        if min1 and self.at_end(i):
            return perr()
        n, some_ = self.take_while(i, mask)
        if min1 and not some_:
            return perr()
        return ok(tup(("str", n, i[2]), self.slice(i[1], n)))

    def tag(self, i, s):
        cur = i
        n = self.tape.norm(i[1])
        if len(s) > 1 and n.kind == "ch" and n.group is not None and n.mask & (n.mask - 1) and n.next is not None and n.next.kind == "lex" and (
                n.next.group is n.group) and not n.next.any and not self.at_end(i):
            # a whole word: it begins with s, or it is known not to
            g, x = n.group, n.next
            if any(s.startswith(q) for q in g.noprefix) or not n.mask >> ord(s[0]) & 1:
                return perr()
            if all(x.mask >> ord(c) & 1 for c in s[1:]):
                if self.choose(2, "word begins with"):
                    g.noprefix.add(s)
                    return perr()
                n.mask = 1 << ord(s[0])
                for c in s[1:]:
                    self.tape.split_lex(x)
                    x.mask = 1 << ord(c)
                    x = x.next
                return ok(tup(("str", x, i[2]), self.slice(i[1], x)))
        for c in s:
            n = self.take1(cur, 1 << ord(c))
            if n is None:
                return perr()
            cur = ("str", n.next, i[2])
        return ok(tup(cur, self.slice(i[1], cur[1])))

    def predmask(self, f):
        """the set of characters a predicate accepts: it is interpreted for every character"""
        key = repr(strip(f))
        if key not in self.P.preds:
            m = 0
            for c in range(NLETTERS):
                sub = Run(self.P, Choice())
                sub.tape = self.tape
                v = sub.call(f, [c if c < 128 else ("uni", c)])
                if not isinstance(v, int):
                    raise Unknown("predicate")
                if v:
                    m |= 1 << c
            self.P.preds[key] = m
        return self.P.preds[key]

    def not_eol(self, i):
        T = self.tape
        n = T.norm(i[1])
        end = T.norm(i[2])
        while n is not end:
            if n.kind == "ch":
                if n.mask & (NL | CR):
                    if n.mask & ~NL == 0:
                        break
                    if self.match_node(n, NL):
                        break
                    if n.mask & CR:
                        raise Unknown("carriage return")
            elif n.kind == "lex":
                if n.mask & (NL | CR):
                    if n.any:
                        return ok(tup(("str", n, i[2]), self.sym("text")))
                    n2, _ = self.take_while(("str", n, i[2]), ALL & ~NL)
                    return ok(tup(("str", n2, i[2]), ("str", i[1], n2)))
            elif n.kind == "rep":
                if any(isinstance(e, str) and "\n" in e for e in n.rep.body) or any(isinstance(e, Hole) and e.kind != "type" for e in n.rep.body):
                    T.peek(n)
                    n = T.norm(n)
                    continue
            elif n.kind in ("hole", "tt"):
                if n.hole[0] != "type":
                    raise Unknown("rest of line over a " + n.hole[0])
            n = T.norm(n.next)
        return ok(tup(("str", n, i[2]), ("str", i[1], n)))

    def take_until(self, i, s):
        if len(s) != 1:
            raise Unknown("take_until")
        n, _ = self.take_while(i, ALL & ~cs(s))
        m = self.tape.norm(n)
        if m.kind == "lex" and m.any:
            if self.choose(2, "arbitrary text"):
                return perr()
        elif T_end(self, n, i):
            return perr()
        return ok(tup(("str", n, i[2]), self.slice(i[1], n)))

    def failed(self, start, where):
        """a parser that began after the choices `start` has failed and left nothing but refinements"""
        start, k = start
        while len(self.opened) > k:
            # what was found out about the text of a type is forgotten
            n, n.cand = self.opened.pop()
            n.prod = None
        if self.choice.pos != len(start):
            self.choice.merge((start, where, self.sig()))

    def passed(self, i, entry, acc):
        """a loop has come to i with nothing kept of the text: what it found out about the types it
        has passed is forgotten, and the same situation is followed only once"""
        start, k = entry
        if len(self.opened) <= k:
            return
        at = self.tape.norm(i[1])
        line = [n for n in self.walk() if n.kind != "empty"]
        l = []
        for j, x in enumerate(acc):
            k_ = pure(x)
            if k_ is None and isinstance(x, tuple) and x[0] == "str":
                s, e = (next((m for m, n in enumerate(line) if n is self.tape.norm(y)), None) for y in x[1:3])
                if s is None or e is None:
                    # a piece of the text of a type
                    acc[j] = x = ("sym", "some text")
                    k_ = pure(x)
                else:
                    k_ = ("text", s, e)
            if k_ is None:
                return
            l.append(k_)
        where = next((j for j, n in enumerate(line) if n is at), None)
        keep = []
        for n, c in self.opened[k:]:
            j = next((j for j, x in enumerate(line) if x is n), None)
            if j is None or where is None and n is self.opened[-1][0] or where is not None and j >= where:
                keep.append((n, c))
            else:
                n.prod = n.cand = None
        self.opened[k:] = keep
        if where is None:
            m, j = self.opened[-1][0].prod if self.opened else None, 0
            while m is not None and self.tape.norm(m) is not at:
                m, j = m.next, j + 1
            where = ("in", j)
        self.choice.merge((start, "passed", where, len(acc), tuple(l), self.sig(), tuple(sorted((k, tuple(v)) for k, v in self.hvar.items()))))

    def begin(self):
        return self.choice.prefix(), len(self.opened)

    def sig(self):
        out = []

        def go(n):
            while n is not None and n.kind != "end":
                if n.kind != "empty":
                    out.append((n.kind, n.mask, id(n.rep) if n.rep else 0, n.any, n.hole, n.cand))
                    if n.prod is not None:
                        m = n.prod
                        k = 0
                        while m is not None and m is not n.next and k < 60:
                            out.append((m.kind, m.mask))
                            m = m.next
                            k += 1
                        out.append("<")
                n = n.next
        go(self.tape.head)
        live = {id(n.group) for n in self.walk()}
        for g in self.tape.groups:
            if (g.exclude or g.noprefix) and id(g) in live:
                out.append((g.n, tuple(sorted(g.exclude)), tuple(sorted(g.noprefix))))
        return tuple(out)

    # ------------------------------------------------ combinators
    def run_parser(self, p, i):
        return self.call(p, [i])

    @staticmethod
    def is_ok(r):
        return r[2] == 0

    def rec(self, r):
        """a recoverable error?"""
        e = self.deref(r[3][0])
        if e[0] == "sym":
            return True
        return e[2] == 1

    def split(self, r):
        t = self.deref(r[3][0])
        return self.deref(t[1][0]), t[1][1]

    def apply(self, comb, i):
        name, a = comb[1], comb[2]
        i = self.deref(i)
        f = getattr(self, "c_" + name, None)
        if f is None:
            raise Unknown("combinator " + name)
        return self.chk(f(i, *a))

    def chk(self, r):
        r = self.deref(r)
        if r[0] == "sym":
            if self.choose(2, "accepts"):
                return perr()
            raise Unknown("opaque parser result")
        return r

    def p(self, q, i):
        if self.hopeless(q, i):
            return perr()
        return self.chk(self.run_parser(q, i))

    def hopeless(self, q, i):
        """at the text of a type: does the parser fail for every text of a type?  The refinements a failure
        leaves are dropped, which keeps more texts than there are"""
        i = self.deref(i)
        if i[0] != "str":
            return False
        n = self.tape.norm(i[1])
        if n.kind != "hole" or n.prod is not None or n.hole[0] not in self.prods:
            return False
        q = self.deref(q)
        k = pure(q)
        if k is None:
            return False
        head, end, sig = self.clone(n, i[2])
        key = (k, sig)
        memo = self.P.memo
        if key in memo:
            return memo[key]
        memo[key] = False  # for recursion
        ch = Choice()
        res = True
        for _ in range(400):
            R = Run(self.P, ch)
            R.tape = Tape(R, [])
            R.depth = self.depth
            a, e, _s = self.clone(n, i[2])
            R.tape.head, R.tape.end = a, e
            R.writes = self.writes
            try:
                r = R.p(q, ("str", a, e))
                if R.is_ok(r) or not R.rec(r):
                    res = False
                    break
            except Infeasible:
                pass
            except (Unknown, Panic):
                res = False
                break
            if not ch.advance():
                break
        else:
            res = False
        memo[key] = res
        return res

    def clone(self, n, end):
        """a copy of the rest of the tape and its signature"""
        m, groups, sig, order_ = {}, {}, [], []

        def cp(x):
            while True:
                if id(x) in m:
                    return
                y = Node(x.kind)
                m[id(x)] = y
                order_.append(x)
                if x.prod is not None:
                    cp(x.prod)
                if x.next is None:
                    return
                x = x.next
        cp(n)
        for x in order_:
            y = m[id(x)]
            for a in Node.__slots__:
                v = getattr(x, a)
                if isinstance(v, Node):
                    v = m[id(v)]
                elif isinstance(v, Group):
                    if id(v) not in groups:
                        g = Group(v.role, v.exclude, len(groups))
                        g.noprefix = set(v.noprefix)
                        groups[id(v)] = g
                    v = groups[id(v)]
                setattr(y, a, v)
            sig.append((x.kind, x.mask, groups[id(x.group)].n if x.group is not None else None, x.any, x.hole, x.cand, x.lit, id(x.rep) if x.rep else 0))
        for g in groups.values():
            sig.append((g.n, tuple(sorted(g.exclude)), tuple(sorted(g.noprefix))))
        if id(end) not in m:
            m[id(end)] = Node("end")
            sig.append("foreign end")
        return m[id(n)], m[id(end)], tuple(sig)

    def c_tag(self, i, s):
        s = self.deref(s)
        return self.tag(i, s[1])

    def c_char(self, i, c):
        return self.one(i, 1 << c)

    def one(self, i, mask):
        n = self.take1(i, mask)
        if n is None:
            return perr()
        return ok(tup(("str", n.next, i[2]), ("charset", n)))

    def c_satisfy(self, i, f):
        return self.one(i, self.predmask(f))

    def setmask(self, s):
        s = self.deref(s)
        if s[0] == "lit":
            return cs(s[1])
        if s[0] == "vec":
            return sum(1 << self.deref(x) for x in s[1])
        raise Unknown("character set")

    def c_one_of(self, i, s):
        return self.one(i, self.setmask(s))

    def c_none_of(self, i, s):
        return self.one(i, ALL & ~self.setmask(s))

    def c_is_not(self, i, s):
        return self.apply_take_while(i, ALL & ~self.setmask(s), True)

    def c_is_a(self, i, s):
        return self.apply_take_while(i, self.setmask(s), True)

    def c_take_while1(self, i, f):
        return self.apply_take_while(i, self.predmask(f), True)

    def c_take_while(self, i, f):
        return self.apply_take_while(i, self.predmask(f), False)

    def c_take_till1(self, i, f):
        return self.apply_take_while(i, ALL & ~self.predmask(f), True)

    def c_take_till(self, i, f):
        return self.apply_take_while(i, ALL & ~self.predmask(f), False)

    def c_take_until(self, i, s):
        return self.take_until(i, self.deref(s)[1])

    def c_alt(self, i, l):
        last = perr()
        for k, q in enumerate(self.deref(l)[1]):
            start = self.begin()
            last = self.p(q, i)
            if self.is_ok(last) or not self.rec(last):
                return last
            self.failed(start, k)
        return last

    def c_map(self, i, q, f):
        r = self.p(q, i)
        if not self.is_ok(r):
            return r
        i2, o = self.split(r)
        return ok(tup(i2, self.call(f, [o])))

    def c_value(self, i, v, q):
        r = self.p(q, i)
        if not self.is_ok(r):
            return r
        return ok(tup(self.split(r)[0], v))

    def c_map_res(self, i, q, f):
        r = self.p(q, i)
        if not self.is_ok(r):
            return r
        i2, o = self.split(r)
        v = self.deref(self.call(f, [o]))
        if v[0] == "sym":
            return perr() if self.choose(2, "conversion") else ok(tup(i2, v))
        return ok(tup(i2, v[3][0])) if v[2] == 0 else perr()

    def c_map_opt(self, i, q, f):
        r = self.p(q, i)
        if not self.is_ok(r):
            return r
        i2, o = self.split(r)
        v = self.deref(self.call(f, [o]))
        return ok(tup(i2, v[3][0])) if v[2] == 1 else perr()

    def c_verify(self, i, q, f):
        r = self.p(q, i)
        if not self.is_ok(r):
            return r
        i2, o = self.split(r)
        return r if self.truth(self.call(f, [o])) else perr()

    def truth(self, v):
        v = self.deref(v)
        if isinstance(v, int):
            return bool(v)
        raise Unknown("truth of %r" % (v,))

    def c_opt(self, i, q):
        start = self.begin()
        r = self.p(q, i)
        if self.is_ok(r):
            i2, o = self.split(r)
            return ok(tup(i2, some(o)))
        self.failed(start, "opt")
        return ok(tup(i, NONE)) if self.rec(r) else r

    def c_cut(self, i, q):
        r = self.p(q, i)
        return perr(2) if not self.is_ok(r) and self.rec(r) else r

    def c_complete(self, i, q):
        return self.p(q, i)

    def c_cond(self, i, b, q):
        if not self.truth(b):
            return ok(tup(i, NONE))
        r = self.p(q, i)
        if not self.is_ok(r):
            return r
        i2, o = self.split(r)
        return ok(tup(i2, some(o)))

    def c_peek(self, i, q):
        r = self.p(q, i)
        return ok(tup(i, self.split(r)[1])) if self.is_ok(r) else r

    def c_not(self, i, q):
        r = self.p(q, i)
        if self.is_ok(r):
            return perr()
        return ok(tup(i, tup())) if self.rec(r) else r

    def c_recognize(self, i, q):
        r = self.p(q, i)
        if not self.is_ok(r):
            return r
        i2, _ = self.split(r)
        return ok(tup(i2, self.slice(i[1], i2[1])))

    def c_consumed(self, i, q):
        r = self.p(q, i)
        if not self.is_ok(r):
            return r
        i2, o = self.split(r)
        return ok(tup(i2, tup(self.slice(i[1], i2[1]), o)))

    def c_all_consuming(self, i, q):
        r = self.p(q, i)
        if not self.is_ok(r):
            return r
        i2, o = self.split(r)
        return r if self.ended(i2) else perr()

    def c_eof(self, i):
        return ok(tup(i, i)) if self.ended(i) else perr()

    def c_rest(self, i):
        return ok(tup(("str", i[2], i[2]), i))

    def c_success(self, i, v):
        return ok(tup(i, v))

    def c_fail(self, i):
        return perr()

    def ended(self, i):
        n = self.tape.norm(i[1])
        if n.kind == "lex" and n.any and self.tape.norm(n.next).kind == "end":
            if self.choose(2, "arbitrary text ends"):
                n.kind = "empty"
                return True
            return False
        return self.at_end(i) or self.tape.norm(i[2]).kind == "end" and self.tape.peek(i[1]) is None

    def seq(self, i, qs):
        out = []
        for q in qs:
            r = self.p(q, i)
            if not self.is_ok(r):
                return r, None, None
            i, o = self.split(r)
            out.append(o)
        return None, i, out

    def c_delimited(self, i, a, b, c):
        e, i, o = self.seq(i, [a, b, c])
        return e or ok(tup(i, o[1]))

    def c_preceded(self, i, a, b):
        e, i, o = self.seq(i, [a, b])
        return e or ok(tup(i, o[1]))

    def c_terminated(self, i, a, b):
        e, i, o = self.seq(i, [a, b])
        return e or ok(tup(i, o[0]))

    def c_pair(self, i, a, b):
        e, i, o = self.seq(i, [a, b])
        return e or ok(tup(i, tup(*o)))

    def c_separated_pair(self, i, a, s, b):
        e, i, o = self.seq(i, [a, s, b])
        return e or ok(tup(i, tup(o[0], o[2])))

    def c_tuple(self, i, l):
        e, i, o = self.seq(i, self.deref(l)[1])
        return e or ok(tup(i, tup(*o)))

    # -- repetition
    def loop(self, i, step, acc, count_only=False):
        """step(i) -> Ok((i', v)) or Err; the induction over repetitions of the tape"""
        T = self.tape
        inside = set()
        n_it = 0
        entry = self.begin()
        while True:
            n = T.norm(i[1])
            if n.kind == "lex" and n.any:
                # an arbitrary text: any number of further elements
                if self.choose(2, "arbitrary repetition"):
                    acc.append(("sym", ("some elements", len(acc))))
                    acc.open = True
                return None, i
            rep = None
            if n.kind == "rep":
                if self.choose(2, "repetition ends"):
                    n.kind = "empty"
                    continue
                was = (n.rep, n.next)
                rep = T.unfold(n)
            start = self.begin()
            r = step(i)
            if not self.is_ok(r):
                if not self.rec(r):
                    return r, None
                if rep is not None:
                    # not a repetition of this loop
                    T._become(n, Node("rep", rep=was[0], next=was[1]))
                self.failed(start, "loop")
                return None, i
            i2, v = self.split(r)
            if T.norm(i2[1]) is n and T.norm(i[1]) is n:
                return perr(), None  # nom's check for parsers that consume nothing
            acc.append(v)
            if rep is not None:
                acc.open = True
                if T.norm(i2[1]) is not rep and T.norm(i2[1]) is not T.norm(rep):
                    raise Unknown("one application of a repeated parser does not consume one element")
                if rep.kind == "rep":
                    rep.kind = "empty"
            m = T.norm(i2[1])
            if m.kind == "ch" and m.next is not None and (m.next.kind == "tt" or m.next.kind == "lex" and m.group is m.next.group):
                # inside the text of a type or in a lexeme; a second time is the same situation
                k = (m.mask, m.next.kind, m.next.mask, m.next.hole, id(m.group))
                if k in inside:
                    raise Infeasible("covered by induction")
                inside.add(k)
            i = i2
            n_it += 1
            self.passed(i, entry, acc)
            if n_it > 40:
                raise Unknown("unbounded repetition")

    def c_many0(self, i, q):
        acc = L()
        e, i = self.loop(i, lambda i: self.p(q, i), acc)
        return e or ok(tup(i, ("vec", acc)))

    def c_many1(self, i, q):
        r = self.p(q, i)
        if not self.is_ok(r):
            return r
        i, v = self.split(r)
        acc = L([v])
        e, i = self.loop(i, lambda i: self.p(q, i), acc)
        return e or ok(tup(i, ("vec", acc)))

    def c_many0_count(self, i, q):
        r = self.c_many0(i, q)
        return self.count(r)

    def c_many1_count(self, i, q):
        return self.count(self.c_many1(i, q))

    def count(self, r):
        if not self.is_ok(r):
            return r
        i, v = self.split(r)
        return ok(tup(i, _len(self, None, "", "", [v])))

    def c_many_till(self, i, q, end):
        acc = L()
        while True:
            r = self.p(end, i)
            if self.is_ok(r):
                i2, o = self.split(r)
                return ok(tup(i2, tup(("vec", acc), o)))
            r = self.p(q, i)
            if not self.is_ok(r):
                return r
            i, v = self.split(r)
            acc.append(v)
            if len(acc) > 30:
                raise Unknown("many_till")

    def sepd(self, i, sep, q, first):
        acc = L()
        if not self.at_anyn(i):
            r = self.p(q, i)
            if not self.is_ok(r):
                if first or not self.rec(r):
                    return r
                return ok(tup(i, ("vec", [])))
            i, v = self.split(r)
            acc.append(v)
        elif first:
            r = self.any_result(i, "list")
            if not self.is_ok(r):
                return r
            i, v = self.split(r)
            acc.append(v)

        def step(i):
            r = self.p(sep, i)
            if not self.is_ok(r):
                return r
            i2, _ = self.split(r)
            return self.p(q, i2)

        e, i = self.loop(i, step, acc)
        return e or ok(tup(i, ("vec", acc)))

    def at_anyn(self, i):
        n = self.tape.norm(i[1])
        return n.kind == "lex" and n.any

    def c_separated_list0(self, i, sep, q):
        return self.sepd(i, sep, q, False)

    def c_separated_list1(self, i, sep, q):
        return self.sepd(i, sep, q, True)

    # ------------------------------------------------ library functions
    def library(self, c, args):
        path = c.get("res") or c["path"]
        p = c["path"]
        if p.startswith("nom::"):
            return self.nom(p, c, args)
        short = p.split("::")[-1]
        if p in ("std::ops::Fn::call", "std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once"):
            f = self.deref(args[0])
            return self.call(f, list(self.deref(args[1])[1]))
        if p == "std::ops::Try::branch":
            v = self.deref(args[0])
            if v[0] == "sym":
                raise Unknown("? on an opaque value")
            if v[1] == "Option":
                return adt("ControlFlow", 0, v[3][0]) if v[2] == 1 else adt("ControlFlow", 1, v)
            return adt("ControlFlow", 0, v[3][0]) if v[2] == 0 else adt("ControlFlow", 1, v)
        if p == "std::ops::FromResidual::from_residual":
            return args[0]
        if p in ("std::mem::drop", "core::mem::drop"):
            return tup()
        key = None
        # constructors used as functions
        m = self.P.ctor(p)
        if m:
            return ("adt", m[0], m[1], list(args))
        f = LIB.get(short)
        if f is not None:
            return f(self, c, p, path, [a for a in args])
        raise Unknown("library function " + path)

    def nom(self, p, c, args):
        name = p.split("::")[-1]
        if p.startswith("nom::error"):
            return ("sym", "error")
        if p.startswith("nom::Err::"):
            if name == "map":
                return args[0]
            m = {"Error": 1, "Failure": 2, "Incomplete": 0}.get(name)
            if m is not None:
                return adt("nom::Err", m, *args)
        if p.endswith("Parser::parse"):
            return self.call(args[0], [args[1]])
        if "streaming" in p:
            raise Unknown(p)
        if name in SIMPLE:
            i = self.deref(args[0])
            return SIMPLE[name](self, i)
        if name in ("eof", "rest", "fail"):
            return self.apply(("comb", name, []), args[0])
        if hasattr(self, "c_" + name):
            if name in ("consumed", "recognize", "many0", "alt") or True:
                return ("comb", name, list(args))
        raise Unknown("library function " + p)

    # strings
    def str_eq(self, a, b):
        a, b = self.deref(a), self.deref(b)
        if a[0] == "lit" and b[0] == "lit":
            return int(a[1] == b[1])
        if a[0] == "lit":
            a, b = b, a
        if a[0] == "sym" or b[0] == "sym":
            return 1 - self.choose(2, "opaque comparison")
        if b[0] != "lit":
            raise Unknown("comparison of texts")
        return int(self.text_is(a, b[1]))

    def slice_nodes(self, a):
        T = self.tape
        n, e = T.norm(a[1]), T.norm(a[2])
        out = []
        while n is not e:
            if n.kind == "end":
                raise Unknown("bad slice")
            if n.kind == "hole" and n.prod is not None:
                n = T.norm(n.prod)
                continue
            out.append(n)
            n = T.norm(n.next)
        return out

    def text_is(self, a, s):
        ns = self.slice_nodes(a)
        if any(n.kind == "lex" and n.any for n in ns):
            return self.choose(2, "arbitrary text")
        if ns and ns[0].kind == "hole":
            self.tape.peek(ns[0])
            return self.text_is(a, s)
        if ns and ns[0].kind == "tt" and ns[0].lit == "word":
            # a word in the text of a type
            return False if s in TYPE_WORDS_NOT else self.choose(2, "word in a type")
        gs = {id(n.group) for n in ns}
        if len(gs) == 1 and ns[0].group is not None:
            g = ns[0].group
            whole = self.whole(g, ns)
            if whole:
                if s in g.exclude or any(s.startswith(q) for q in g.noprefix):
                    return False
                # can it be?
                if not self.possible(ns, s):
                    return False
                if all(n.kind == "ch" and n.mask & (n.mask - 1) == 0 for n in ns):
                    return True
                if self.choose(2, "word"):
                    g.exclude.add(s)
                    return False
                cur = ("str", ns[0], a[2])
                for c in s:
                    n = self.tape.peek(cur[1])
                    n.mask &= 1 << ord(c)
                    if not n.mask:
                        raise Infeasible("word")
                    cur = ("str", n.next, a[2])
                for n in self.slice_nodes(cur):
                    if n.kind == "lex":
                        n.kind = "empty"
                    else:
                        raise Infeasible("word")
                return True
        cur = a
        for c in s:
            if self.at_end(cur):
                return False
            n = self.take1(cur, 1 << ord(c))
            if n is None:
                return False
            cur = ("str", n.next, a[2])
        while not self.at_end(cur):
            n = self.tape.norm(cur[1])
            if n.kind == "tt":
                if self.choose(2, "type text ends"):
                    return False
                cur = ("str", n.next, a[2])
                continue
            if n.kind == "lex":
                if self.choose(2, "empty"):
                    n.kind = "empty"
                    continue
                self.tape.split_lex(n)
            return False
        return True

    def whole(self, g, ns):
        cnt = 0
        for n in self.walk():
            if n.group is g and n.kind != "empty":
                cnt += 1
        return cnt == len(ns)

    def walk(self):
        out, n = [], self.tape.head
        while n is not None and n.kind != "end":
            out.append(n)
            n = n.next
        return out

    def possible(self, ns, s):
        """can the nodes spell s?"""
        k = 0
        states = {0}
        for n in ns:
            if n.kind == "ch":
                states = {x + 1 for x in states if x < len(s) and n.mask >> ord(s[x]) & 1}
            else:
                new = set()
                for x in states:
                    y = x
                    new.add(y)
                    while y < len(s) and n.mask >> ord(s[y]) & 1:
                        y += 1
                        new.add(y)
                states = new
        return len(s) in states


def pure(v):
    """a key for a parser that holds no part of the text, or None"""
    if isinstance(v, (int, str)):
        return v
    if isinstance(v, Ref) or v is None:
        return None
    if isinstance(v, list):
        l = [pure(x) for x in v]
        return None if None in l else tuple(l)
    if isinstance(v, tuple):
        if v and v[0] == "str":
            return None
        if v and v[0] == "fn":
            return ("fn", v[1].get("res") or v[1]["path"])
        l = [pure(x) for x in v]
        return None if None in l else tuple(l)
    return None


def strip(f):
    return f if not isinstance(f, tuple) or f[0] != "fn" else ("fn", f[1].get("res") or f[1]["path"])


def T_end(run, n, i):
    return run.tape.norm(n) is run.tape.norm(i[2]) or run.tape.norm(n).kind == "end"


def base_adt(path):
    if path.endswith("nom::Err") or path == "nom::Err":
        return "nom::Err"
    return path.split("::")[-1]


SIMPLE = {
    "space0": lambda R, i: R.apply_take_while(i, BLANK, False),
    "space1": lambda R, i: R.apply_take_while(i, BLANK, True),
    "multispace0": lambda R, i: R.apply_take_while(i, BLANK | NL | CR, False),
    "multispace1": lambda R, i: R.apply_take_while(i, BLANK | NL | CR, True),
    "digit0": lambda R, i: R.apply_take_while(i, DIGIT, False),
    "digit1": lambda R, i: R.apply_take_while(i, DIGIT, True),
    "alpha0": lambda R, i: R.apply_take_while(i, ALPHA, False),
    "alpha1": lambda R, i: R.apply_take_while(i, ALPHA, True),
    "alphanumeric0": lambda R, i: R.apply_take_while(i, ALPHA | DIGIT, False),
    "alphanumeric1": lambda R, i: R.apply_take_while(i, ALPHA | DIGIT, True),
    "hex_digit1": lambda R, i: R.apply_take_while(i, DIGIT | cs("abcdefABCDEF"), True),
    "newline": lambda R, i: R.one(i, NL),
    "line_ending": lambda R, i: R.one(i, NL),
    "not_line_ending": lambda R, i: R.not_eol(i),
    "anychar": lambda R, i: R.one(i, ALL),
    "tab": lambda R, i: R.one(i, cs("\t")),
}


# ---------------------------------------------------------------- library
def _eq(R, c, p, path, a):
    x, y = R.deref(a[0]), R.deref(a[1])
    if isinstance(x, tuple) and x[0] in ("lit", "str", "sym") and isinstance(y, tuple) and y[0] in ("lit", "str", "sym"):
        r = R.str_eq(x, y)
    elif isinstance(x, int) and isinstance(y, int):
        r = int(x == y)
    elif isinstance(x, tuple) and x[0] == "adt" and isinstance(y, tuple) and y[0] == "adt":
        if x[2] != y[2]:
            r = 0
        elif not x[3]:
            r = 1
        else:
            rs = [_eq(R, c, "eq", path, [u, v]) for u, v in zip(x[3], y[3])]
            r = int(all(rs))
    elif isinstance(x, tuple) and x[0] == "charset" or isinstance(y, tuple) and y[0] == "charset":
        r = R.binop("eq", x, y)
    else:
        raise Unknown("comparison")
    return int(not r) if p.endswith("ne") else r


def _starts(R, c, p, path, a):
    s, q = R.deref(a[0]), R.deref(a[1])
    if s[0] == "lit" and isinstance(q, tuple) and q[0] == "lit":
        return int(s[1].startswith(q[1]))
    if isinstance(q, int):
        q = ("lit", chr(q))
    if s[0] != "str":
        if s[0] == "sym":
            return R.choose(2, "opaque text")
        raise Unknown("starts_with")
    if q[0] in ("fn", "closure"):
        return int(R.take1(s, R.predmask(q)) is not None)
    if q[0] == "vec":
        return int(R.take1(s, R.setmask(q)) is not None)
    cur = s
    for ch in q[1]:
        if R.at_end(cur):
            return 0
        n = R.tape.norm(cur[1])
        while n.kind == "lex":
            if R.choose(2, "empty"):
                n.kind = "empty"
                n = R.tape.norm(n)
                if n is R.tape.norm(s[2]):
                    return 0
            else:
                R.tape.split_lex(n)
        n = R.take1(cur, 1 << ord(ch))
        if n is None:
            return 0
        cur = ("str", n.next, s[2])
    return 1


def _strip_prefix(R, c, p, path, a):
    s, q = R.deref(a[0]), R.deref(a[1])
    if isinstance(q, int):
        q = ("lit", chr(q))
    if s[0] == "str" and q[0] == "lit":
        r = R.tag(s, q[1])
        if not R.is_ok(r):
            return NONE
        return some(R.split(r)[0])
    raise Unknown("strip_prefix")


def _is_empty(R, c, p, path, a):
    s = R.deref(a[0])
    if s[0] == "lit":
        return int(not s[1])
    if s[0] == "vec":
        if any(isinstance(x, tuple) and x[0] == "sym" and isinstance(x[1], tuple) and x[1][0] == "some elements" for x in s[1]):
            return R.choose(2, "opaque list")
        return int(not s[1])
    if s[0] == "str":
        if R.at_end(s):
            return 1
        n = R.tape.norm(s[1])
        if n.kind == "lex" and n.any:
            if R.choose(2, "arbitrary text ends"):
                n.kind = "empty"
                if R.tape.norm(n) is R.tape.norm(s[2]) or R.tape.norm(n).kind == "end":
                    return 1
                raise Infeasible("text follows")
            return 0
        while n.kind == "lex" and n is not R.tape.norm(s[2]):
            if R.choose(2, "empty"):
                n.kind = "empty"
                n = R.tape.norm(n)
            else:
                R.tape.split_lex(n)
                return 0
        if n.kind == "rep":
            return int(R.tape.peek(n) is None)
        return int(n is R.tape.norm(s[2]) or n.kind == "end")
    if s[0] == "sym":
        return R.choose(2, "opaque list")
    raise Unknown("is_empty")


def _contains(R, c, p, path, a):
    s, q = R.deref(a[0]), R.deref(a[1])
    if s[0] == "lit":
        if isinstance(q, int):
            return int(chr(q) in s[1])
        if q[0] == "uni":
            return 0
        if q[0] == "charset":
            return int(R.match_node(q[1], cs(s[1])))
    if s[0] == "vec":
        if isinstance(q, int):
            return int(q in [R.deref(x) for x in s[1]])
        if q[0] == "uni":
            return 0
        if q[0] == "charset":
            return int(R.match_node(q[1], sum(1 << R.deref(x) for x in s[1])))
        if q[0] in ("str", "lit", "adt"):
            return int(any(_eq(R, c, "eq", path, [x, q]) for x in s[1]))
    raise Unknown("contains")


def _charpred(mask):
    def f(R, c, p, path, a):
        x = R.deref(a[0])
        if isinstance(x, int):
            return int(x < 128 and mask >> x & 1)
        if x[0] == "uni":
            return int(mask >> x[1] & 1)
        if x[0] == "charset":
            return int(R.match_node(x[1], mask))
        raise Unknown("character predicate")
    return f


def _is_digit(R, c, p, path, a):
    r = R.deref(a[1]) if len(a) > 1 else 10
    m = {10: DIGIT, 16: DIGIT | cs("abcdefABCDEF"), 8: cs("01234567"), 2: cs("01")}.get(r)
    if m is None:
        raise Unknown("radix")
    return _charpred(m)(R, c, p, path, a)


def _chars(R, c, p, path, a):
    s = R.deref(a[0])
    return ("iter", "chars", s)


def _next(R, c, p, path, a):
    r = a[0]
    it = R.deref(r)
    if it[0] != "iter":
        raise Unknown("next on %r" % (it[0],))
    while isinstance(r, Ref) and isinstance(R.read(r.fr, r.loc, r.proj), Ref):
        r = R.read(r.fr, r.loc, r.proj)

    def put(v):
        if isinstance(r, Ref):
            R.write(r.fr, r.loc, r.proj, v)
    if it[1] == "chars":
        s = it[2]
        if s[0] == "lit":
            if not s[1]:
                return NONE
            put(("iter", "chars", ("lit", s[1][1:])))
            return some(ord(s[1][0]))
        if s[0] == "str":
            if _is_empty(R, c, p, path, [s]):
                return NONE
            n = R.tape.peek(s[1])
            put(("iter", "chars", ("str", n.next, s[2])))
            return some(("charset", n))
    if it[1] == "list":
        l = it[2]
        if not l:
            return NONE
        put(("iter", "list", L.of(l, l[1:])))
        return some(l[0])
    raise Unknown("next")


def _iter(R, c, p, path, a):
    v = R.deref(a[0])
    if v[0] == "iter":
        return v
    if v[0] == "vec":
        return ("iter", "list", L.of(v[1], v[1]))
    if v[0] == "adt" and v[1] == "Option":
        return ("iter", "list", list(v[3]))
    if v[0] == "adt" and v[1] in ("Range", "RangeInclusive") and all(isinstance(R.deref(x), int) for x in v[3][:2]):
        return ("iter", "list", list(range(R.deref(v[3][0]), R.deref(v[3][1]) + (v[1] == "RangeInclusive"))))
    raise Unknown("iteration over %r" % (v[:2],))


def _it_map(R, c, it, f):
    return ("iter", "list", L.of(it[2], [R.call(f, [x]) for x in it[2]]))


def _map(R, c, p, path, a):
    v = R.deref(a[0])
    if v[0] == "adt" and v[1] == "Option":
        return some(R.call(a[1], [v[3][0]])) if v[2] == 1 else v
    if v[0] == "adt" and v[1] == "Result":
        return ok(R.call(a[1], [v[3][0]])) if v[2] == 0 else v
    if v[0] == "iter" and v[1] == "list":
        return _it_map(R, c, v, a[1])
    raise Unknown("map on %r" % (v[0],))


def _map_err(R, c, p, path, a):
    v = R.deref(a[0])
    if v[0] == "adt" and v[1] == "Result":
        return v if v[2] == 0 else adt("Result", 1, ("sym", "mapped error"))
    raise Unknown("map_err")


def _and_then(R, c, p, path, a):
    v = R.deref(a[0])
    if v[0] == "adt" and v[1] == "Option":
        return R.call(a[1], [v[3][0]]) if v[2] == 1 else v
    if v[0] == "adt" and v[1] == "Result":
        return R.call(a[1], [v[3][0]]) if v[2] == 0 else v
    raise Unknown("and_then")


def _or_else(R, c, p, path, a):
    v = R.deref(a[0])
    if v[0] == "adt" and v[1] == "Option":
        return v if v[2] == 1 else R.call(a[1], [])
    if v[0] == "adt" and v[1] == "Result":
        return v if v[2] == 0 else R.call(a[1], [v[3][0]])
    raise Unknown("or_else")


def _or(R, c, p, path, a):
    v = R.deref(a[0])
    if v[0] == "adt" and v[1] == "Option":
        return v if v[2] == 1 else a[1]
    if v[0] == "adt" and v[1] == "Result":
        return v if v[2] == 0 else a[1]
    raise Unknown("or")


def _okf(R, c, p, path, a):
    v = R.deref(a[0])
    if v[0] == "adt" and v[1] == "Result":
        return some(v[3][0]) if v[2] == 0 else NONE
    raise Unknown("ok")


def _ok_or(R, c, p, path, a):
    v = R.deref(a[0])
    if v[0] == "adt" and v[1] == "Option":
        if v[2] == 1:
            return ok(v[3][0])
        return adt("Result", 1, a[1] if p.endswith("ok_or") else R.call(a[1], []))
    raise Unknown("ok_or")


def _isv(ty, k):
    def f(R, c, p, path, a):
        v = R.deref(a[0])
        if v[0] == "adt":
            return int(v[2] == k)
        raise Unknown("is_..")
    return f


def _unwrap(R, c, p, path, a):
    v = R.deref(a[0])
    good = {"Option": 1, "Result": 0}
    if v[0] == "adt" and v[1] in good:
        if v[2] == good[v[1]]:
            return v[3][0]
        raise Panic("unwrap")
    raise Unknown("unwrap")


def _unwrap_or(R, c, p, path, a):
    v = R.deref(a[0])
    good = {"Option": 1, "Result": 0}
    if v[0] == "adt" and v[1] in good:
        if v[2] == good[v[1]]:
            return v[3][0]
        return a[1] if p.endswith("unwrap_or") else R.call(a[1], [])
    raise Unknown("unwrap_or")


def _map_or(R, c, p, path, a):
    v = R.deref(a[0])
    good = {"Option": 1, "Result": 0}
    if v[0] == "adt" and v[1] in good:
        if v[2] == good[v[1]]:
            return R.call(a[2], [v[3][0]])
        return a[1] if p.endswith("map_or") else R.call(a[1], [])
    raise Unknown("map_or")


def _is_some_and(R, c, p, path, a):
    v = R.deref(a[0])
    good = {"Option": 1, "Result": 0}
    if v[0] == "adt" and v[1] in good:
        return R.deref(R.call(a[1], [v[3][0]])) if v[2] == good[v[1]] else 0
    raise Unknown("is_some_and")


def _ident(R, c, p, path, a):
    return a[0]


def _identd(R, c, p, path, a):
    return R.deref(a[0])


def _from_str(R, c, p, path, a):
    s = R.deref(a[0])
    if s[0] == "str":
        ns = R.slice_nodes(s)
        if ns and all(n.kind in ("ch", "lex") and n.mask & ~DIGIT == 0 for n in ns) and any(n.kind == "ch" for n in ns):
            narrow = re.search(r"\b[iu](8|16|32)\b", json.dumps(c))
            if narrow and R.choose(2, "does not fit"):
                return adt("Result", 1, ("sym", "error"))
            return ok(("num", s))
        if R.choose(2, "conversion"):
            return adt("Result", 1, ("sym", "error"))
        return ok(("num", s))
    raise Unknown("from_str")


def _vec_new(R, c, p, path, a):
    return ("vec", [])


def _push(R, c, p, path, a):
    r = a[0]
    v = R.deref(r)
    while isinstance(r, Ref) and isinstance(R.read(r.fr, r.loc, r.proj), Ref):
        r = R.read(r.fr, r.loc, r.proj)
    if v[0] != "vec" or not isinstance(r, Ref):
        raise Unknown("push")
    R.write(r.fr, r.loc, r.proj, ("vec", L.of(v[1], list(v[1]) + [a[1]])))
    return tup()


def _len(R, c, p, path, a):
    s = R.deref(a[0])
    if s[0] == "lit":
        return len(s[1])
    if s[0] == "vec":
        return R.sym("length") if getattr(s[1], "open", False) else len(s[1])
    raise Unknown("len")


def _write_str(R, c, p, path, a):
    s = R.deref(a[1])
    if R.writes is None or s[0] != "lit" and s[0] != "val":
        if R.writes is None:
            raise Unknown("write_str")
    R.writes.append(s)
    return ok(tup())


def _write_char(R, c, p, path, a):
    s = R.deref(a[1])
    R.writes.append(("lit", chr(s)))
    return ok(tup())


def _argnew(R, c, p, path, a):
    return ("fmtarg", R.deref(a[0]))


def _argsnew(R, c, p, path, a):
    b = a[0]
    args = R.deref(a[1])[1] if len(a) > 1 else []
    return ("fmt", R.deref(b), [R.deref(x) for x in args])


def _pieces(b):
    """decode the compiler's format template"""
    if b[0] == "lit":
        return [b[1]]
    by = b[1]["mem"]["bytes"][b[1].get("off", 0):]
    out, i = [], 0
    while i < len(by):
        x = by[i]
        i += 1
        if x == 0:
            break
        if x < 0x80:
            out.append(bytes(by[i:i + x]).decode("utf-8", "replace"))
            i += x
        elif x == 0x80:
            n = by[i] | by[i + 1] << 8
            out.append(bytes(by[i + 2:i + 2 + n]).decode("utf-8", "replace"))
            i += 2 + n
        elif x == 0xC0:
            out.append(None)
        else:
            raise Unknown("format options")
    return out


def _write_fmt(R, c, p, path, a):
    f = R.deref(a[1])
    if R.writes is None or f[0] != "fmt":
        raise Unknown("write_fmt")
    k = 0
    for x in _pieces(f[1]):
        if x is None:
            R.display(f[2][k][1])
            k += 1
        else:
            R.writes.append(("lit", x))
    return ok(tup())


def _display(R, v):
    v = R.deref(v)
    if isinstance(v, tuple) and v[0] == "lit":
        R.writes.append(v)
        return
    if isinstance(v, tuple) and v[0] == "adt" and v[1] in R.P.displays:
        R.body(R.P.displays[v[1]], [v, ("fmtr",)])
        return
    R.writes.append(("val", v))


Run.display = _display


def _disp_fmt(R, c, p, path, a):
    R.display(a[0])
    return ok(tup())


def _concat(R, c, p, path, a):
    raise Unknown("concat")


LIB = {
    "eq": _eq, "ne": _eq, "starts_with": _starts, "strip_prefix": _strip_prefix, "is_empty": _is_empty,
    "contains": _contains, "is_alphanumeric": _charpred(UALNUM), "is_alphabetic": _charpred(UALPHA),
    "is_ascii_alphanumeric": _charpred(ALPHA | DIGIT), "is_ascii_alphabetic": _charpred(ALPHA),
    "is_ascii_digit": _charpred(DIGIT), "is_digit": _is_digit, "is_numeric": _charpred(DIGIT),
    "is_whitespace": _charpred(BLANK | NL | CR | 1 << 11 | 1 << 12), "is_ascii_whitespace": _charpred(BLANK | NL | CR | 1 << 12),
    "is_ascii": _charpred((1 << 128) - 1),
    "is_ascii_punctuation": _charpred(cs("!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~")),
    "chars": _chars, "next": _next, "into_iter": _iter, "iter": _iter, "map": _map, "map_err": _map_err,
    "and_then": _and_then, "or_else": _or_else, "or": _or, "ok": _okf, "ok_or": _ok_or, "ok_or_else": _ok_or,
    "is_some": _isv("Option", 1), "is_none": _isv("Option", 0), "is_ok": _isv("Result", 0), "is_err": _isv("Result", 1),
    "unwrap": _unwrap, "expect": _unwrap, "unwrap_or": _unwrap_or, "unwrap_or_else": _unwrap_or,
    "map_or": _map_or, "map_or_else": _map_or, "is_some_and": _is_some_and, "is_ok_and": _is_some_and,
    "new": None, "clone": _identd, "to_owned": _identd, "from": _ident, "into": _ident, "as_ref": _identd,
    "deref": _identd, "as_str": _identd, "borrow": _identd, "as_slice": _identd, "box_new": _ident, "by_ref": _ident,
    "as_mut": _ident, "must_use": _ident, "copied": _identd, "cloned": _identd, "collect": None,
    "from_str": _from_str, "parse": _from_str, "push": _push, "len": _len, "with_capacity": _vec_new,
    "write_str": _write_str, "write_char": _write_char, "new_display": _argnew, "new_debug": _argnew, "write_fmt": _write_fmt,
    "fmt": _disp_fmt, "from_str_nonconst": None,
}


def _new(R, c, p, path, a):
    if "Box" in p or "Rc" in p:
        return a[0]
    if "Vec" in p:
        return ("vec", [])
    if "fmt::Arguments" in p:
        return _argsnew(R, c, p, path, a)
    raise Unknown(p)


def _fromstr_args(R, c, p, path, a):
    if "Arguments" in p:
        return ("fmt", R.deref(a[0]), [])
    return _from_str(R, c, p, path, a)


def _collect(R, c, p, path, a):
    v = R.deref(a[0])
    if v[0] == "iter" and v[1] == "list":
        return ("vec", L.of(v[2], v[2]))
    raise Unknown("collect")


LIB.update({"new": _new, "collect": _collect, "from_str": _fromstr_args, "box_assume_init_into_vec_unsafe": _ident,
            "into_vec": _identd, "into_boxed_slice": _identd})


# ---- iterators over lists, vectors, options
def _items(R, v):
    v = _iter(R, None, "", "", [v])
    if v[1] != "list":
        raise Unknown("iterator over a text")
    return L.of(v[2], v[2])


def _adapter(f):
    def g(R, c, p, path, a):
        l = _items(R, a[0])
        return ("iter", "list", L.of(l, f(R, l, a[1:])))
    return g


def _consumer(f):
    def g(R, c, p, path, a):
        l = _items(R, a[0])
        r = a[0]
        if isinstance(r, Ref) and R.deref(r)[0] == "iter":
            _put(R, r, ("iter", "list", []))
        return f(R, l, a[1:])
    return g


def _put(R, r, v):
    while isinstance(r, Ref) and isinstance(R.read(r.fr, r.loc, r.proj), Ref):
        r = R.read(r.fr, r.loc, r.proj)
    if isinstance(r, Ref):
        R.write(r.fr, r.loc, r.proj, v)


def _int(R, x):
    x = R.deref(x)
    if not isinstance(x, int):
        raise Unknown("number")
    return x


def _skip(R, l, a):
    n = _int(R, a[0])
    if l.open and n > 1:
        raise Unknown("the last elements of a list of unknown length")
    return l[n:]


def _filter(R, l, a):
    return [x for x in l if R.truth(R.call(a[0], [x]))]


def _filter_map(R, l, a):
    out = [R.deref(R.call(a[0], [x])) for x in l]
    return [x[3][0] for x in out if x[2] == 1]


def _fold(R, l, a):
    acc = a[0]
    for x in l:
        acc = R.call(a[1], [acc, x])
    return acc


def _try_fold(R, l, a):
    acc = a[0]
    for x in l:
        r = R.deref(R.call(a[1], [acc, x]))
        if r[0] != "adt" or r[1] not in ("Result", "Option"):
            raise Unknown("try_fold")
        if (r[2] == 0) != (r[1] == "Result"):
            return r
        acc = r[3][0]
        kind = r[1]
    return ok(acc) if not l or kind == "Result" else some(acc)


def _for_each(R, l, a):
    for x in l:
        R.call(a[0], [x])
    return tup()


def _try_for_each(R, l, a):
    for x in l:
        r = R.deref(R.call(a[0], [x]))
        if r[0] != "adt":
            raise Unknown("try_for_each")
        if (r[2] == 0) != (r[1] == "Result"):
            return r
    return ok(tup())


def _quant(want):
    def f(R, l, a):
        for x in l:
            if bool(R.truth(R.call(a[0], [x]))) == want:
                return int(want)
        return int(not want)
    return f


def _opt(l, k):
    return some(l[k]) if l else NONE


def _popv(R, c, p, path, a):
    v = R.deref(a[0])
    if v[0] != "vec":
        raise Unknown("pop")
    l = L.of(v[1], v[1])
    if not l:
        return NONE
    x = l.pop()
    _put(R, a[0], ("vec", l))
    return some(x)


def _extend(R, c, p, path, a):
    v = R.deref(a[0])
    if v[0] != "vec":
        raise Unknown("extend")
    _put(R, a[0], ("vec", L.of(v[1], list(v[1]) + _items(R, a[1]))))
    return tup()


def _first(R, c, p, path, a):
    v = R.deref(a[0])
    if v[0] != "vec":
        raise Unknown(p)
    l = v[1]
    if not l:
        return NONE
    s = p.split("::")[-1]
    if s == "first":
        return some(l[0])
    if s == "split_first":
        return some(tup(l[0], ("vec", list(l[1:]))))
    if s == "split_last":
        return some(tup(l[-1], ("vec", list(l[:-1]))))
    raise Unknown(p)


def _last(R, c, p, path, a):
    v = R.deref(a[0])
    return _opt(list(v[1]) if v[0] == "vec" else _items(R, v), -1)


def _take(R, c, p, path, a):
    v = R.deref(a[0])
    if v[0] == "vec":
        return _mem_take(R, c, p, path, a)
    if v[0] == "adt" and v[1] == "Option":
        _put(R, a[0], NONE)
        return v
    if v[0] == "iter":
        l, n = _items(R, v), _int(R, a[1])
        if l.open and n > 1:
            raise Unknown("the first elements of a list of unknown length")
        return ("iter", "list", l[:n])
    raise Unknown("take")


def _replace(R, c, p, path, a):
    v = R.deref(a[0])
    if p.startswith("std::mem::"):
        _put(R, a[0], a[1])
        return v
    if v[0] == "adt" and v[1] == "Option":
        _put(R, a[0], some(a[1]))
        return v
    raise Unknown("replace")


def _mem_take(R, c, p, path, a):
    v = R.deref(a[0])
    if v[0] == "vec":
        _put(R, a[0], ("vec", []))
        return v
    return _take(R, c, p, path, a)


def _unwrap_or_default(R, c, p, path, a):
    v = R.deref(a[0])
    good = {"Option": 1, "Result": 0}
    if v[0] != "adt" or v[1] not in good:
        raise Unknown(p)
    if v[2] == good[v[1]]:
        return v[3][0]
    ty = json.dumps(c)
    if "Vec<" in ty:
        return ("vec", [])
    if "bool" in ty or "usize" in ty:
        return 0
    if "str" in ty:
        return ("lit", "")
    raise Unknown(p)


def _then(R, c, p, path, a):
    b = R.truth(a[0])
    if not b:
        return NONE
    return some(a[1] if p.endswith("then_some") else R.call(a[1], []))


def _filter_any(R, c, p, path, a):
    v = R.deref(a[0])
    if v[0] == "adt" and v[1] == "Option":
        return v if v[2] == 1 and R.truth(R.call(a[1], [v[3][0]])) else NONE
    return ("iter", "list", _filter(R, _items(R, v), a[1:]))


def _and(R, c, p, path, a):
    v = R.deref(a[0])
    if v[0] == "adt" and v[1] in ("Option", "Result"):
        return a[1] if v[2] == {"Option": 1, "Result": 0}[v[1]] else v
    raise Unknown("and")


LIB.update({
    "enumerate": _adapter(lambda R, l, a: [tup(k, x) for k, x in enumerate(l)]),
    "skip": _adapter(_skip), "rev": _adapter(lambda R, l, a: l[::-1]),
    "zip": _adapter(lambda R, l, a: [tup(x, y) for x, y in zip(l, _items(R, a[0]))]),
    "chain": _adapter(lambda R, l, a: l + _items(R, a[0])), "filter": _filter_any, "filter_map": _adapter(_filter_map),
    "peekable": _adapter(lambda R, l, a: l), "fuse": _adapter(lambda R, l, a: l), "iter_mut": _iter,
    "fold": _consumer(_fold), "try_fold": _consumer(_try_fold), "for_each": _consumer(_for_each), "try_for_each": _consumer(_try_for_each),
    "all": _consumer(_quant(False)), "any": _consumer(_quant(True)), "count": _consumer(lambda R, l, a: R.sym("length") if l.open else len(l)),
    "last": _last, "first": _first, "split_first": _first, "split_last": _first, "pop": _popv, "extend": _extend, "take": _take,
    "replace": _replace, "unwrap_or_default": _unwrap_or_default, "then": _then, "then_some": _then, "and": _and,
})


# ---------------------------------------------------------------- the program
class Program:
    def __init__(self, j):
        self.bodies = {b["key"]: b for b in j["bodies"]}
        self.adts = j["adts"]
        self.memo = {}
        self.nonterm, self.prods, self.suffixes, self.firsts = {}, {}, {}, {}
        self.preds, self.symdec, self.used = {}, set(), set()
        self.displays = {}
        for b in j["bodies"]:
            m = re.match(r"<(.*) as std::fmt::Display>::fmt$", b["path"])
            if m and "#promoted" not in b["key"]:
                self.displays[re.sub(r"<.*", "", m.group(1)).split("::")[-1]] = b
        self._ctor = {}
        for path, a in self.adts.items():
            if a["kind"] == "enum":
                for k, v in enumerate(a["variants"]):
                    self._ctor[path + "::" + v["name"]] = (base_adt(path), k)
            else:
                self._ctor[path] = (base_adt(path), 0)
        for n, x in (("Some", ("Option", 1)), ("None", ("Option", 0)), ("Ok", ("Result", 0)), ("Err", ("Result", 1))):
            for pre in ("std::prelude::v1::", "std::option::Option::", "std::result::Result::", "std::option::Option::<T>::"):
                self._ctor[pre + n] = x
        self.deadline = None
        self.paths = 0

    def ctor(self, p):
        return self._ctor.get(re.sub(r"::<[^:]*>", "", p)) or self._ctor.get(p)

    def nvariants(self, kind):
        for p, a in self.adts.items():
            if base_adt(p) == {"type": "Type"}.get(kind) and a.get("local"):
                return len(a["variants"])
        raise Unknown("kinds of " + kind)

    def variant(self, ty, name):
        for p, a in self.adts.items():
            if base_adt(p) == ty and (a.get("local") or ty in ("Option", "Result")):
                for k, v in enumerate(a["variants"]):
                    if v["name"] == name:
                        return k
        raise Incomplete("type %s has no variant %s" % (ty, name))

    def vname(self, ty, k):
        for p, a in self.adts.items():
            if base_adt(p) == ty and a.get("local"):
                return a["variants"][k]["name"]
        return str(k)

    def is_parser(self, key):
        b = self.bodies[key]
        return b["kind"] != "Closure" and b["argc"] == 1 and b["locals"][0][0].startswith("std::result::Result<(&str,")

    def returning(self, ty):
        """parsers with this output type"""
        pre = "std::result::Result<(&str, %s" % ty
        return [k for k, b in self.bodies.items() if "#promoted" not in k and b["kind"] != "Closure" and b["argc"] == 1
                and re.match(re.escape(pre) + r"(<'_>)?\), nom::Err<", b["locals"][0][0])]

    def refs(self):
        """key of a function (closures count for their owner) -> keys it refers to"""
        if hasattr(self, "_refs"):
            return self._refs
        out = {}

        def walk(x, acc):
            if isinstance(x, list):
                if len(x) == 2 and x[0] == "c" and isinstance(x[1], dict):
                    if x[1].get("local"):
                        acc.add(x[1]["local"])
                    return
                for y in x:
                    walk(y, acc)
        for k, b in self.bodies.items():
            o = re.sub(r"(::\{closure#\d+\}|#promoted\d+).*", "", k)
            acc = out.setdefault(o, set())
            for bl in b["blocks"]:
                if not bl.get("c"):
                    walk(bl["s"], acc)
                    walk(bl["t"], acc)
        self._refs = out
        return out

    def root(self, ty, what):
        c = set(self.returning(ty))
        if not c:
            raise Incomplete("anchor not found: no parser returns " + what)
        refs = self.refs()
        r = {k for o, ks in refs.items() if o not in c for k in ks if k in c}
        if len(r) > 1:
            def reach(k):
                seen, todo = set(), [k]
                while todo:
                    for x in refs.get(todo.pop(), ()):
                        if x not in seen:
                            seen.add(x)
                            todo.append(x)
                return seen
            full = {k for k in r if c - {k} <= reach(k)}
            r = full or r
        if len(r) > 1:
            r = {k for k in r if k.split("::")[-1] in ("type_", "stmt", "item", "parse")} or r
        if len(r) != 1:
            raise Incomplete("anchor not found: the parser of " + what)
        return r.pop()

    def explore(self, key, sentence, judge, limit=30000):
        """all ways through the function on the sentence; judge(run, result) for each"""
        ch = Choice()
        n = 0
        self.memo = {}
        while True:
            n += 1
            if n > limit or self.deadline and time.time() > self.deadline:
                raise Incomplete("too many paths through " + self.bodies[key]["path"])
            R = Run(self, ch)
            try:
                R.tape = Tape(R, list(sentence))
                i = ("str", R.tape.head, R.tape.end)
                r = R.deref(R.body(self.bodies[key], [i]))
                R.check_words()
                self.paths += 1
                judge(R, r)
            except Infeasible:
                pass
            except Panic as e:
                judge(R, ("panic", str(e)))
            if not ch.advance():
                return n


def _check_words(R):
    for g in R.tape.groups:
        if g.exclude or g.noprefix:
            ns = [n for n in R.walk() if n.group is g and n.kind != "empty"]
            for q in g.noprefix:
                if len(ns) >= len(q) and all(n.kind == "ch" and n.mask == 1 << ord(c) for n, c in zip(ns, q)):
                    raise Infeasible("excluded beginning")
            if ns and all(n.kind == "ch" and n.mask & (n.mask - 1) == 0 for n in ns):
                w = "".join(chr(n.mask.bit_length() - 1) for n in ns)
                if w in g.exclude:
                    raise Infeasible("excluded word")


Run.check_words = _check_words


# ---------------------------------------------------------------- reading results
def text(R, s):
    """the text of a slice, lexemes by their role"""
    s = R.deref(s)
    if s[0] == "lit":
        return s[1]
    if s[0] == "sym":
        return "<?>"
    if s[0] != "str":
        return "<not a text: %s>" % (s[0],)
    ns = R.slice_nodes(s)
    out, k = [], 0
    while k < len(ns):
        n = ns[k]
        if n.group is not None:
            g, m = n.group, k
            while m < len(ns) and ns[m].group is g:
                m += 1
            out.append("<%s>" % g.role if R.whole(g, ns[k:m]) else "<part of %s>" % g.role)
            k = m
            continue
        if n.kind == "ch":
            out.append(n.lit or "?")
        elif n.kind in ("hole", "tt"):
            out.append("<%s %s>" % (n.hole[0], n.hole[1]))
        else:
            out.append("?")
        k += 1
    return "".join(out)


def value(R, v):
    """a value as nested tuples with texts and holes by role"""
    v = R.deref(v)
    if isinstance(v, int):
        return v
    if v is None:
        return None
    if v[0] in ("str", "lit"):
        return text(R, v)
    if v[0] == "num":
        return ("num", text(R, v[1]))
    if v[0] == "hole":
        return ("T", v[1].hole[1], v[1].hole[2])
    if v[0] == "part":
        return ("part", v[1][1], v[1][2], v[2])
    if v[0] == "vec":
        return [value(R, x) for x in v[1]]
    if v[0] == "tup":
        return tuple(value(R, x) for x in v[1])
    if v[0] == "adt":
        if v[1] == "Option":
            return None if v[2] == 0 else ("Some", value(R, v[3][0]))
        a = next((a for p, a in R.P.adts.items() if base_adt(p) == v[1] and a.get("local")), None)
        if a and a["kind"] != "enum":
            return (v[1],) + tuple((f, value(R, x)) for f, x in zip(a["variants"][0]["fields"], v[3]))
        return (R.P.vname(v[1], v[2]),) + tuple(value(R, x) for x in v[3])
    return v[:2]


def holes(R, role):
    """the type holes with this role, in order of the text"""
    return [("T", n.hole[1], n.hole[2]) for n in R.walk() if n.kind == "hole" and n.hole[1] == role and n.hole[0]]


def before(R, a, b):
    return R.tape.norm(a) is R.tape.norm(b)
