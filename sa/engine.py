"""Abstract interpreter over the dumped MIR.

Disjunctive (path-sensitive, finitely merged) abstract interpretation: values are constants,
ADT/tuple/closure shapes, references to abstract cells, and *provenance terms* describing where an
unknown value came from.  Path conditions are DNFs of finite facts (variant of a term, truth of an
atomic predicate, value of a scalar switch).  Loops are analysed once for a generic iteration, after
replacing everything the body may change by a fresh term (fixpoint over the set of changed cells);
iteration over a compile-time-known list is unrolled.  Calls are inlined when the body is in the
crate; library calls go through the models of models.py; anything else yields an opaque term.

Values (immutable tuples):
  ('i', n)                   integer / bool / char
  ('s', str)                 string literal
  ('by', bytes)              byte string
  ('A', path, variant, fields)   struct / enum value        ('T', fields) tuple   ('V', elems) array
  ('C', key, upvars)         closure                        ('F', path, ga, localkey) fn item
  ('R', cell, proj)          reference to a place of a cell
  ('S', op, *args)           provenance term
  ('M', kind, id)            container allocated by the analysed code
"""
import zlib

from mir import norm

UNIT = ("T", ())
TRUE = ("i", 1)
FALSE = ("i", 0)
OPT = "std::option::Option"
RES = "std::result::Result"
CF = "std::ops::ControlFlow"
NONE = ("A", OPT, 0, ())
EMPTY_PC = frozenset([frozenset()])
MAXDISJ = 400


def some(v):
    return ("A", OPT, 1, (v,))


def ok(v):
    return ("A", RES, 0, (v,))


def err(v):
    return ("A", RES, 1, (v,))


def S(op, *a):
    return ("S", op) + a


def tup(*a):
    return ("T", tuple(a))


class Incomplete(Exception):
    pass


class St:
    __slots__ = ("mem", "sh", "ver", "pc", "dom")

    def __init__(self, mem=None, sh=None, ver=None, pc=EMPTY_PC, dom=None):
        self.mem = mem if mem is not None else {}
        self.sh = sh if sh is not None else {}
        self.ver = ver if ver is not None else {}
        self.pc = pc
        self.dom = dom

    def copy(self):
        return St(dict(self.mem), dict(self.sh), dict(self.ver), self.pc, self.dom)


class Event:
    __slots__ = ("kind", "data", "pc", "loops", "loc", "fn", "seq", "ctx", "dom")

    def __init__(self, kind, data, pc, loops, loc, fn, seq, ctx, dom):
        self.kind, self.data, self.pc, self.loops = kind, data, pc, loops
        self.loc, self.fn, self.seq, self.ctx, self.dom = loc, fn, seq, ctx, dom

    def __repr__(self):
        return "<%s %s @%s>" % (self.kind, pp(self.data), self.loc)


class Frame:
    __slots__ = ("id", "body", "key", "parent", "loc", "ga")

    def __init__(self, id, body, key, parent):
        self.id, self.body, self.key, self.parent, self.loc = id, body, key, parent, None


# ------------------------------------------------------------------ pretty printing
def pp(v, d=0):
    if d > 12:
        return "…"
    if not isinstance(v, tuple) or not v:
        return repr(v)
    k = v[0]
    r = lambda x: pp(x, d + 1)
    if k == "i" and len(v) == 2:
        return str(v[1])
    if k == "s":
        return repr(v[1])
    if k == "A":
        nm = v[1].split("::")[-1]
        return "%s#%s(%s)" % (nm, v[2], ", ".join(map(r, v[3])))
    if k == "T":
        return "(" + ", ".join(map(r, v[1])) + ")"
    if k == "V":
        return "[" + ", ".join(map(r, v[1])) + "]"
    if k == "C":
        return "|%s|" % v[1].split("::", 1)[-1]
    if k == "F":
        return "fn:" + v[1].split("::")[-1]
    if k == "R":
        return "&%s%s" % (v[1], list(v[2]) if v[2] else "")
    if k == "M":
        return "%s@%s" % (v[1], v[2])
    if k == "S":
        op = v[1]
        if op == "f":
            return "%s.%s" % (r(v[2]), "%s:%s" % (v[3], v[4]))
        if op == "phi":
            return "phi%s" % (v[2],)
        return "%s(%s)" % (op, ", ".join(map(r, v[2:])))
    return "(" + ", ".join(r(x) for x in v) + ")"


def show_pc(pc):
    out = []
    for c in list(pc)[:6]:
        out.append(" & ".join("%s∈%s" % (pp(a), sorted(map(str, v[1])) if v[0] == "in" else "¬" + str(sorted(map(str, v[1])))) for a, v in sorted(c, key=str)))
    return " | ".join(out) or "true"


# ------------------------------------------------------------------ facts
# conj: frozenset of (atom, ('in', frozenset) | ('not', frozenset))
# atoms: ('var', term, n)   variant index of term          ('b', term) truth (0/1)
#        ('val', term)      scalar value of a term
_cd = {}


_CR = {}


def cranges(conj):
    """{term: (lowest, highest, excluded)} from comparisons of terms with integer constants"""
    r = _CR.get(conj)
    if r is not None:
        return r
    raw = {}

    def cell(v):
        if v not in raw:
            raw[v] = [0 if v[0] == "S" and v[1] == "len" else None, None, set()]
        return raw[v]

    def lower(c, k):
        c[0] = k if c[0] is None else max(c[0], k)

    def upper(c, k):
        c[1] = k if c[1] is None else min(c[1], k)
    for a, v in conj:
        if a[0] == "val":
            c = cell(a[1])
            if all(isinstance(x, int) for x in v[1]):
                if v[0] == "in":
                    if v[1]:
                        lower(c, min(v[1]))
                        upper(c, max(v[1]))
                else:
                    c[2] |= v[1]
        elif a[0] == "b" and a[1][1] in ("lt", "eq") and len(v[1]) == 1 and v[0] == "in":
            x, y = a[1][2:4]
            xc, yc = x[0] == "i" and isinstance(x[1], int), y[0] == "i" and isinstance(y[1], int)
            if xc == yc:
                continue
            k, t = (x[1], y) if xc else (y[1], x)
            c, yes = cell(t), 1 in v[1]
            if a[1][1] == "eq":
                if yes:
                    lower(c, k)
                    upper(c, k)
                else:
                    c[2].add(k)
            elif xc:
                lower(c, k + 1) if yes else upper(c, k)
            else:
                upper(c, k - 1) if yes else lower(c, k)
    for c in raw.values():
        while c[0] is not None and c[0] in c[2]:
            c[0] += 1
        while c[1] is not None and c[1] in c[2]:
            c[1] -= 1
    if len(_CR) > 200000:
        _CR.clear()
    r = {t: tuple(c) for t, c in raw.items()}
    _CR[conj] = r
    return r


def cdict(c):
    d = _cd.get(c)
    if d is None:
        if len(_cd) > 200000:
            _cd.clear()
        d = _cd[c] = dict(c)
    return d


def _strtruth(conj, op, x, lit):
    """decide a string predicate from the other facts known about x"""
    d = cdict(conj)
    for (a, vs) in d.items():
        if a[0] != "b":
            continue
        t = a[1]
        if t[1] not in ("seq", "pre", "suf") or t[2] != x:
            continue
        tv = 1 in vs[1]
        o, l = t[1], t[3]
        if o == "seq":
            if tv:
                return {"seq": l == lit, "pre": l.startswith(lit), "suf": l.endswith(lit)}[op]
            continue
        if o == "pre":
            if tv:
                if op == "pre":
                    if l.startswith(lit):
                        return True
                    if not lit.startswith(l):
                        return False
                elif op == "seq" and not lit.startswith(l):
                    return False
            elif op in ("pre", "seq") and lit.startswith(l):
                return False
        if o == "suf":
            if tv:
                if op == "suf":
                    if l.endswith(lit):
                        return True
                    if not lit.endswith(l):
                        return False
                elif op == "seq" and not lit.endswith(l):
                    return False
            elif op in ("suf", "seq") and lit.endswith(l):
                return False
    return None


class Engine:
    def __init__(self, j):
        self.j = j
        self.bodies = {b["key"]: b for b in j["bodies"]}
        self.bypath = {}
        for b in j["bodies"]:
            if "#promoted" not in b["key"]:
                self.bypath.setdefault(b["path"], b["key"])
        self.types = j["types"]
        self.adts = j["adts"]
        self.ctor = {}
        for p, a in self.adts.items():
            for i, v in enumerate(a["variants"]):
                self.ctor[p + "::" + v["name"]] = (p, i)
                if a["kind"] == "struct":
                    self.ctor[p] = (p, 0)
        self.events = []
        self.phases = []
        self.silent = 0
        self.seq = 0
        self.loopstack = []
        self.ctxids = {}
        self.ctxinfo = {}
        self.havoc = {}
        self.phis = {}
        self.loops = {}
        self.colls = {}
        self.cfgs = {}
        self.constcache = {}
        self.promid = 0
        self.incomplete = []
        self.opaque_calls = {}
        self.stats = {"blocks": 0, "calls": 0, "bodies": set(), "loops": set()}
        self.models = {}
        self.key_models = {}   # local body key/path -> model (modular reasoning)
        self.binop_hooks = []
        self.switch_hooks = []
        self.assume_hook = None
        self.depth = 0
        self.alloc_loops = {}
        self.mutated = set()
        self.elf_words = False        # figures from the ELF file have at most 32 bits
        self.node_weight = {}
        self.warm = 0
        self.str_hook = self.elem_hook = self.write_hook = self.index_hook = None
        import models
        models.install(self)

    # ------------------------------------------------------------ helpers
    def find(self, path):
        k = self.bypath.get(path)
        if k is None:
            raise Incomplete("anchor not found: " + path)
        return k

    def note(self, msg):
        if msg not in self.incomplete:
            self.incomplete.append(msg)

    def ev(self, st, fr, kind, *data):
        if self.silent:
            return
        self.seq += 1
        f, loc = fr, fr.loc
        self.events.append(Event(kind, data, st.pc, tuple(self.loopstack), loc, fr.key, self.seq, fr.id, st.dom))

    # ------------------------------------------------------------ memory
    def rdcell(self, st, cell, path):
        v = st.mem.get(cell)
        if v is None:
            return S("undef", cell)
        for pe in path:
            v = self.vget(st, v, pe)
        return v

    def load(self, st, v):
        n = 0
        while n < 20:
            if v[0] == "R":
                v = self.rdcell(st, v[1], v[2])
            elif v[0] == "S" and st.sh and v in st.sh:
                v = st.sh[v]
            else:
                break
            n += 1
        return v

    def deep(self, st, v, d=0):
        if d > 25 or not isinstance(v, tuple) or not v:
            return v
        k = v[0]
        if k == "R" or k == "S" and st.sh and v in st.sh:
            w = self.load(st, v)
            return self.deep(st, w, d + 1) if w != v else w
        if k == "A":
            return ("A", v[1], v[2], tuple(self.deep(st, x, d + 1) for x in v[3]))
        if k in ("T", "V"):
            return (k, tuple(self.deep(st, x, d + 1) for x in v[1]))
        if k == "C":
            return (k, v[1], tuple(self.deep(st, x, d + 1) for x in v[2]))
        return v

    def vget(self, st, v, pe):
        k = v[0]
        if k == "R":
            v = self.load(st, v)
            k = v[0]
        if pe[0] == "ix":
            i = pe[1]
            if k == "V":
                if i[0] == "i" and 0 <= i[1] < len(v[1]):
                    return v[1][i[1]]
            if k == "by" and i[0] == "i":
                return ("i", v[1][i[1]])
            if self.index_hook:
                r = self.index_hook(st, v, i)
                if r is not None:
                    return r
            return self.elem(st, v, i)
        var, idx = pe
        if k == "A":
            return v[3][idx] if idx < len(v[3]) else S("badfield", v, idx)
        if k == "T":
            return v[1][idx] if idx < len(v[1]) else S("badfield", v, idx)
        if k == "C":
            return v[2][idx]
        if k == "S" or k == "M":
            return self.symf(st, v, var, idx)
        return S("f", v, var, idx)

    def elem(self, st, c, i):
        t = S("elem", c, i)
        return st.sh.get(t, t)

    def symf(self, st, b, var, idx):
        if b[0] == "S" and b[1] == "get" and var == 1 and idx == 0:
            t = S("at", b[2], b[3])
        elif b[0] == "S" and b[1] == "remove" and var == 1 and idx == 0:
            t = S("at", b[2], b[3])
        else:
            t = self.symf_place(b, var, idx)
        return st.sh.get(t, t)

    def vset(self, st, v, path, val):
        if not path:
            return val
        pe, rest = path[0], path[1:]
        k = v[0]
        if k == "R":
            self.wr(st, v, path, val)
            return v
        if pe[0] == "ix":
            if k == "V" and pe[1][0] == "i" and pe[1][1] < len(v[1]):
                l = list(v[1])
                l[pe[1][1]] = self.vset(st, l[pe[1][1]], rest, val)
                return ("V", tuple(l))
            t = S("elem", v, pe[1])
            self.symstore(st, t, rest, val)
            return v
        var, idx = pe
        if k == "A":
            l = list(v[3])
            while len(l) <= idx:
                l.append(S("undef", "field"))
            l[idx] = self.vset(st, l[idx], rest, val)
            return ("A", v[1], v[2], tuple(l))
        if k == "T":
            l = list(v[1])
            l[idx] = self.vset(st, l[idx], rest, val)
            return ("T", tuple(l))
        if k == "C":
            l = list(v[2])
            l[idx] = self.vset(st, l[idx], rest, val)
            return ("C", v[1], tuple(l))
        if k == "S" and v[1] == "undef":
            # struct initialised field by field (tuples of locals)
            return v
        t = self.symf_place(v, var, idx)
        self.symstore(st, t, rest, val)
        return v

    def symf_place(self, b, var, idx):
        if b[0] == "S" and b[1] == "get" and var == 1 and idx == 0:
            return S("at", b[2], b[3])
        if b[0] == "S" and b[1] == "elem" and b[2][0] == "S" and b[2][1] == "raw_nodes" and idx == 0:
            return S("at", b[2][2], S("nodeix", b[3]))
        return S("f", b, var, idx)

    def symstore(self, st, t, rest, val):
        for pe in rest:
            cur = st.sh.get(t)
            if cur is not None and cur[0] != "S":
                st.sh[t] = self.vset(st, cur, rest, val)
                self._symev(st, t, rest, val)
                return
            if cur is not None:
                t = cur
            t = S("elem", t, pe[1]) if pe[0] == "ix" else self.symf_place(t, pe[0], pe[1])
            rest = rest[1:]
        st.sh[t] = val
        self._symev(st, t, (), val)

    def _symev(self, st, t, rest, val):
        if self.cur is not None:
            self.ev(st, self.cur, "store", t, self.deep(st, val), rest)

    cur = None

    def wr(self, st, ref, path, val):
        """store val to the place designated by a reference value"""
        n = 0
        while ref[0] == "R" and n < 20:
            cell, p = ref[1], ref[2] + tuple(path)
            v = st.mem.get(cell)
            if not p:
                # plain overwrite of a whole cell
                st.mem[cell] = val
                return
            # does the path cross another reference?
            cur, i = v, 0
            crossed = False
            if cur is not None:
                for i, pe in enumerate(p):
                    if cur[0] == "R":
                        ref, path = cur, p[i:]
                        crossed = True
                        break
                    if cur[0] in ("A", "T", "V", "C") and not (cur[0] == "V" and pe[0] == "ix" and pe[1][0] != "i"):
                        cur = self.vget(st, cur, pe)
                    else:
                        break
            if crossed:
                n += 1
                continue
            if v is None:
                v = S("undef", cell)
            st.mem[cell] = self.vset(st, v, p, val)
            return
        if ref[0] == "S":
            self.symstore(st, ref, tuple(path), val)
        else:
            self.note("store through non-reference %s" % pp(ref)[:80])

    # ------------------------------------------------------------ facts / forks
    BOOLOPS = frozenset(["not", "eq", "lt", "seq", "pre", "suf", "has", "more", "cont"])

    def decide(self, conj, atom):
        """-> known constraint ('in'/'not', set) or None"""
        d = cdict(conj)
        r = d.get(atom)
        if r is not None:
            return r
        if atom[0] == "val":
            r = cranges(conj).get(atom[1])
            if r and r[0] is not None and r[0] == r[1]:
                return ("in", frozenset([r[0]]))
            if r and r[2] and r[0] is None and r[1] is None:
                return ("not", frozenset(r[2]))
            return None
        if atom[0] == "b":
            t = atom[1]
            if t[1] in ("lt", "eq"):
                x = self._inrange(conj, t)
                if x is not None:
                    return ("in", frozenset([x]))
            if t[1] in ("seq", "pre", "suf"):
                x = _strtruth(conj, t[1], t[2], t[3])
                if x is not None:
                    return ("in", frozenset([1 if x else 0]))
            if t[1] == "lt":
                a, b = t[2], t[3]
                if a == b:
                    return ("in", frozenset([0]))
                r = d.get(("b", S("lt", b, a)))
                if r and r[1] == frozenset([1]):
                    return ("in", frozenset([0]))
                e = d.get(("b", S("eq") + tuple(sorted((a, b), key=repr))))
                if e and e[1] == frozenset([1]):
                    return ("in", frozenset([0]))
                if e and e[1] == frozenset([0]) and r and r[1] == frozenset([0]):
                    return ("in", frozenset([1]))
            if t[1] == "not":
                r = self.decide(conj, ("b", t[2]))
                if r is not None and r[0] == "in" and len(r[1]) == 1:
                    return ("in", frozenset([1 - next(iter(r[1]))]))
            if t[1] == "eq":
                a, b = t[2], t[3]
                if a[0] == b[0] == "S" and (a[1] in self.BOOLOPS or b[1] in self.BOOLOPS):
                    x, y = self.decide(conj, ("b", a)), self.decide(conj, ("b", b))
                    if x and y and x[0] == y[0] == "in" and len(x[1]) == len(y[1]) == 1:
                        return ("in", frozenset([1 if x[1] == y[1] else 0]))
                if a[0] == "S" and a[1] == "disc" or b[0] == "S" and b[1] == "disc":
                    x, y = self._discset(d, a), self._discset(d, b)
                    if x and y:
                        if not x & y:
                            return ("in", frozenset([0]))
                        if len(x) == len(y) == 1:
                            return ("in", frozenset([1]))
                for x, y in ((a, b), (b, a)):
                    r = d.get(("b", S("lt", x, y)))
                    if r and r[1] == frozenset([1]):
                        return ("in", frozenset([0]))
                r1, r2 = d.get(("b", S("lt", a, b))), d.get(("b", S("lt", b, a)))
                if r1 and r2 and r1[1] == frozenset([0]) and r2[1] == frozenset([0]):
                    return ("in", frozenset([1]))
                # x == c1 known  =>  x == c2 false
                for x, c in ((a, b), (b, a)):
                    if c[0] == "i":
                        for aa, vv in d.items():
                            if aa[0] == "b" and aa[1][1] == "eq" and vv[1] == frozenset([1]) and x in aa[1][2:4]:
                                o = aa[1][3] if aa[1][2] == x else aa[1][2]
                                if o[0] == "i" and o != c:
                                    return ("in", frozenset([0]))
        return None

    def _inrange(self, conj, t):
        """comparison with a constant decided by the facts about the other side"""
        x, y = t[2], t[3]
        xc, yc = x[0] == "i" and isinstance(x[1], int), y[0] == "i" and isinstance(y[1], int)
        if xc == yc:
            return None
        k, v = (x[1], y) if xc else (y[1], x)
        r = cranges(conj).get(v)
        if r is None:
            if v[0] == "S" and v[1] == "len":
                r = (0, None, ())
            else:
                return None
        lo, hi, ex = r
        if t[1] == "eq":
            if lo is not None and k < lo or hi is not None and k > hi or k in ex:
                return 0
            return 1 if lo == hi == k else None
        if xc:      # k < v
            if lo is not None and k < lo:
                return 1
            return 0 if hi is not None and hi <= k else None
        if hi is not None and hi < k:
            return 1
        return 0 if lo is not None and lo >= k else None

    def _discset(self, d, t):
        """discriminants the term can have under the facts d"""
        if t[0] == "i":
            return {t[1]}
        if t[0] != "S" or t[1] != "disc":
            return None
        a = self.adts.get(t[3])
        n = len(a["variants"]) if a else 2
        k = d.get(("var", t[2], n))
        ds = [v["d"] for v in a["variants"]] if a else [0, 1]
        if k is None:
            return set(ds)
        return {ds[i] for i in range(n) if (i in k[1]) == (k[0] == "in")}

    def restrict(self, st, atom, cons):
        """state with the constraint added to every disjunct; None if infeasible"""
        out = set()
        for c in st.pc:
            k = self.decide(c, atom)
            if k is None:
                out.add(frozenset(list(c) + [(atom, cons)]))
                continue
            # intersect
            if k[0] == "in" and cons[0] == "in":
                n = k[1] & cons[1]
                if not n:
                    continue
                new = ("in", n)
            elif k[0] == "in":
                n = k[1] - cons[1]
                if not n:
                    continue
                new = ("in", n)
            elif cons[0] == "in":
                n = cons[1] - k[1]
                if not n:
                    continue
                new = ("in", n)
            else:
                new = ("not", k[1] | cons[1])
            d = cdict(c)
            if d.get(atom) == new:
                out.add(c)
            elif atom in d:
                out.add(frozenset([(a, v) for a, v in c if a != atom] + [(atom, new)]))
            elif k == new:
                out.add(c)  # implied by other facts
            else:
                out.add(frozenset(list(c) + [(atom, new)]))
        if not out:
            return None
        if len(out) == 1 and out == st.pc:
            return st
        n = st.copy()
        n.pc = frozenset(out)
        return n

    def fork_var(self, st, term, n, only=None):
        """-> [(state, variant)]"""
        r = []
        for k in range(n):
            if only is not None and k not in only:
                continue
            s = self.restrict(st, ("var", term, n), ("in", frozenset([k])))
            if s is not None:
                r.append((s, k))
        return r

    def fork_bool(self, st, t):
        """t: value of type bool -> [(state, bool)]"""
        t = self.load(st, t)
        if t[0] == "i":
            return [(st, bool(t[1]))]
        for h in self.switch_hooks:
            r = h(st, t, None)
            if r is not None:
                return [(s, bool(v)) for s, v in r]
        if t[0] == "S":
            op = t[1]
            if op == "not":
                return [(s, not b) for s, b in self.fork_bool(st, t[2])]
            if op in ("and", "or", "xor"):
                r = []
                for s, a in self.fork_bool(st, t[2]):
                    if op == "and" and not a:
                        r.append((s, False))
                    elif op == "or" and a:
                        r.append((s, True))
                    else:
                        for s2, b in self.fork_bool(s, t[3]):
                            r.append((s2, (a != b) if op == "xor" else b))
                return r
            if op == "isvar":
                base, n, k = t[2], t[3], t[4]
                return [(s, x == k) for s, x in self.fork_var(st, base, n)]
        r = []
        for b in (1, 0):
            s = self.restrict(st, ("b", t), ("in", frozenset([b])))
            if s is not None:
                r.append((s, bool(b)))
        return r

    def nvar(self, path):
        a = self.adts.get(path)
        return len(a["variants"]) if a else 2

    def split(self, st, v, path, n=None):
        """case split on the variant of an enum value -> [(state, variant, payload getter value)]"""
        v = self.load(st, v)
        if v[0] == "A":
            return [(st, v[2], v)]
        n = n or self.nvar(path)
        return [(s, k, v) for s, k in self.fork_var(st, v, n)]

    def payload(self, st, v, k, idx=0):
        return self.vget(st, v, (k, idx))

    # ------------------------------------------------------------ pc simplification
    def simplify(self, pc):
        if len(pc) < 2:
            return pc
        common = frozenset.intersection(*pc)
        ids, facts = {}, []

        def enc(c):
            m = 0
            for f in c:
                if f in common:
                    continue
                i = ids.get(f)
                if i is None:
                    i = ids[f] = len(facts)
                    facts.append(f)
                m |= 1 << i
            return m

        def bits(m):
            while m:
                l = m & -m
                yield l.bit_length() - 1, l
                m ^= l

        ms = set(enc(c) for c in pc)
        changed = True
        while changed and len(ms) > 1:
            changed = False
            # merge conjs that differ in the constraint of exactly one atom
            groups = {}
            for c in ms:
                for i, l in bits(c):
                    groups.setdefault((facts[i][0], c ^ l), []).append((c, i))
            for (a, rest), l in groups.items():
                if len(l) < 2 or any(c not in ms for c, _ in l):
                    continue
                u = self._union([facts[i][1] for _, i in l], a)
                new = rest
                if u is not None:
                    f = (a, u)
                    i = ids.get(f)
                    if i is None:
                        i = ids[f] = len(facts)
                        facts.append(f)
                    new = rest | 1 << i
                for c, _ in l:
                    ms.discard(c)
                ms.add(new)
                changed = True
            # subsumption
            if len(ms) > 1:
                keep = []
                for c in sorted(ms, key=lambda m: bin(m).count("1")):
                    for k in keep:
                        if k & c == k:
                            changed = True
                            break
                    else:
                        keep.append(c)
                ms = set(keep)
        if len(ms) > MAXDISJ:
            return frozenset([common])
        base = list(common)
        return frozenset(frozenset(base + [facts[i] for i, _ in bits(m)]) for m in ms)

    def _union(self, vs, atom):
        ins = frozenset().union(*[v[1] for v in vs if v[0] == "in"])
        nots = [v[1] for v in vs if v[0] == "not"]
        if nots:
            n = frozenset.intersection(*nots) - ins
            return ("not", n) if n else None
        dom = 2 if atom[0] == "b" else atom[2] if atom[0] == "var" else None
        if dom is not None and len(ins) >= dom:
            return None
        return ("in", ins)

    # ------------------------------------------------------------ cfg
    def cfg(self, key):
        c = self.cfgs.get(key)
        if c:
            return c
        b = self.bodies[key]
        blocks = b["blocks"]
        succ = {}
        for i, bb in enumerate(blocks):
            t = bb["t"]
            k = t[0]
            if k == "goto":
                s = [t[1]]
            elif k == "switch":
                s = [x[1] for x in t[2]] + [t[3]]
            elif k == "call":
                s = [t[4]] if t[4] is not None else []
            elif k == "drop":
                s = [t[2]]
            elif k == "assert":
                s = [t[3]]
            else:
                s = []
            succ[i] = s
        order, seen = [], set()
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        onstack = {0}
        backs = []
        while stack:
            n, it = stack[-1]
            for m in it:
                if m in onstack:
                    backs.append((n, m))
                elif m not in seen:
                    seen.add(m)
                    onstack.add(m)
                    stack.append((m, iter(succ[m])))
                    break
            else:
                order.append(n)
                onstack.discard(n)
                stack.pop()
        order.reverse()
        # natural loops
        pred = {}
        for i in seen:
            for m in succ[i]:
                pred.setdefault(m, set()).add(i)
        loops = {}
        for n, h in backs:
            body = loops.setdefault(h, {h})
            work = [n]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work.extend(pred.get(x, ()))
        # RPO that keeps loop bodies contiguous is not needed: loops are processed as regions
        rpo = {n: i for i, n in enumerate(order)}
        # liveness (locals not borrowed)
        nl = len(b["locals"])
        borrowed, through = set(), set()
        use, dfn = {}, {}

        def place_uses(p, acc):
            acc.add(p[0])
            for e in p[1]:
                if e[0] == "i":
                    acc.add(e[1])

        def op_uses(o, acc):
            if o[0] in ("cp", "mv"):
                place_uses(o[1], acc)

        for i in seen:
            u, d = set(), set()

            def usep(p):
                a = set()
                place_uses(p, a)
                for x in a:
                    if x not in d:
                        u.add(x)

            def useo(o):
                if o[0] in ("cp", "mv"):
                    usep(o[1])

            for s in blocks[i]["s"]:
                if s[0] == "=":
                    r = s[2]
                    if r[0] in ("use",):
                        useo(r[1])
                    elif r[0] == "rep":
                        useo(r[1])
                    elif r[0] == "ref":
                        usep(r[2])
                        if not any(e[0] == "*" for e in r[2][1]):
                            borrowed.add(r[2][0])
                        else:
                            through.add(r[2][0])
                    elif r[0] == "cast":
                        useo(r[2])
                    elif r[0] == "bin":
                        useo(r[2]); useo(r[3])
                    elif r[0] == "un":
                        useo(r[2])
                    elif r[0] == "disc":
                        usep(r[1])
                    elif r[0] == "agg":
                        for o in r[2]:
                            useo(o)
                    if s[1][1]:
                        usep(s[1])
                    elif s[1][0] not in u:
                        d.add(s[1][0])
                elif s[0] == "setdisc":
                    usep(s[1])
            t = blocks[i]["t"]
            if t[0] == "switch":
                useo(t[1])
            elif t[0] == "call":
                useo(t[1])
                for o in t[2]:
                    useo(o)
                if t[3][1]:
                    usep(t[3])
            elif t[0] == "assert":
                useo(t[1])
            elif t[0] == "ret":
                if 0 not in d:
                    u.add(0)
            use[i], dfn[i] = u, d
        live = {i: set() for i in seen}
        ch = True
        while ch:
            ch = False
            for i in reversed(order):
                o = set()
                for m in succ[i]:
                    o |= live[m]
                t = blocks[i]["t"]
                if t[0] == "call" and not t[3][1]:
                    o.discard(t[3][0])
                n = use[i] | (o - dfn[i])
                if n != live[i]:
                    live[i] = n
                    ch = True
        npred = {i: len(pred.get(i, ())) for i in seen}
        c = self.cfgs[key] = dict(succ=succ, rpo=rpo, loops=loops, live=live, borrowed=borrowed, through=through, npred=npred, nl=nl)
        return c

    # ------------------------------------------------------------ execution
    def ctx(self, parent, site, key):
        k = (parent, site, key)
        i = self.ctxids.get(k)
        if i is None:
            i = self.ctxids[k] = len(self.ctxids) + 1
            self.ctxinfo[i] = k
        return i

    def call_body(self, st, fr, site, key, args):
        """inline a body of the crate -> [(state, retval)]"""
        p, n = fr, 0
        while p is not None:
            if p.key == key:
                n += 1
            p = p.parent
        if n >= 2:
            self.ev(st, fr, "call", key, tuple(self.deep(st, a) for a in args))
            return [(st, S("call", key, *[self.deep(st, a) for a in args]))]
        body = self.bodies[key]
        nf = Frame(self.ctx(fr.id if fr else 0, site, key), body, key, fr)
        st = st.copy()
        for i, a in enumerate(args):
            st.mem[(nf.id, i + 1)] = a
        self.stats["bodies"].add(key)
        self.stats["calls"] += 1
        saved = self.cur
        self.depth += 1
        if self.depth > 60:
            raise Incomplete("call depth exceeded at " + key)
        try:
            exits, backs, rets = self.region(nf, [(0, st)], None, None)
        finally:
            self.cur = saved
            self.depth -= 1
        out = []
        nl = len(body["locals"])
        for s, v in rets:
            if fr is not None and fr.key == "const":
                v = self.deep(s, v)
            for i in range(nl):
                s.mem.pop((nf.id, i), None)
            out.append((s, v))
        return self.merge_rets(out)

    def merge_rets(self, outs):
        if len(outs) < 2:
            return outs
        if self.dom_rets is not None:
            outs = self.dom_rets(outs)
        groups = []
        for s, v in outs:
            for g in groups:
                if g[1] == v and g[0].mem == s.mem and g[0].dom == s.dom and (g[0].sh == s.sh or self.sh_alike(g[0].sh, s.sh)):
                    n = self.join2(g[0], s)
                    n.sh = {k: v for k, v in g[0].sh.items() if s.sh.get(k) == v}
                    g[0] = n
                    break
            else:
                groups.append([s, v])
        return [(g[0], g[1]) for g in groups]

    def join2(self, a, b):
        n = a.copy()
        pa, pb = a.pc, b.pc
        if a.ver != b.ver:
            for k in set(a.ver) | set(b.ver):
                va, vb = a.ver.get(k, 0), b.ver.get(k, 0)
                if va != vb:
                    pa, pb = self.forget(pa, k, va), self.forget(pb, k, vb)
        n.pc = self.simplify(pa | pb)
        if a.ver != b.ver:
            for k in set(a.ver) | set(b.ver):
                if a.ver.get(k) != b.ver.get(k):
                    n.ver[k] = ("j", zlib.crc32(repr(sorted({repr(a.ver.get(k)), repr(b.ver.get(k))})).encode()))
        return n

    def forget(self, pc, m, v):
        """drop what is known about the contents of m at a version that ends here"""
        if not (isinstance(v, tuple) and v[0] in ("site", "j")):
            return pc
        return frozenset(frozenset((a, x) for a, x in c if not (a[1][0] == "S" and len(a[1]) == 5 and a[1][2] == m and a[1][4] == v)) for c in pc)

    def merge_states(self, l):
        if len(l) < 2:
            return l
        groups = []
        for s in l:
            for i, g in enumerate(groups):
                if g.mem == s.mem and g.dom == s.dom and (g.sh == s.sh or self.sh_alike(g.sh, s.sh)):
                    n = self.join2(g, s)
                    if g.sh != s.sh:
                        n.sh = {k: v for k, v in g.sh.items() if s.sh.get(k) == v}
                    groups[i] = n
                    break
            else:
                groups.append(s)
        if len(groups) > 1 and self.dom_join is not None:
            groups = self.dom_join(groups)
        return groups

    dom_join = dom_rets = None

    def sh_alike(self, a, b):
        """the stores differ only in what one side knows about nodes it has created"""
        for k in set(a) | set(b):
            x, y = a.get(k), b.get(k)
            if x != y:
                if x is not None and y is not None:
                    return False
                v = x if x is not None else y
                if not (v[0] == "S" and v[1] == "newnode" or k[1] == "at" and k[3][0] == "S" and k[3][1] == "newnode"):
                    return False
        return True

    def prune(self, fr, cfg, blk, st):
        live, borrowed = cfg["live"].get(blk, set()), cfg["borrowed"]
        # a reference made through a pointer that is transparent here (a box, a literal) still names the local
        dead = [i for i in range(cfg["nl"]) if i not in live and i not in borrowed and (fr.id, i) in st.mem
                and (i not in cfg["through"] or st.mem[(fr.id, i)][0] in ("R", "S"))]
        if dead:
            st = st.copy()
            for i in dead:
                del st.mem[(fr.id, i)]
        return st

    def region(self, fr, starts, blocks, header):
        """run from the start blocks; blocks: set restricting the region (a loop body) or None.
        -> exits [(blk, st)], backs [st], rets [(st, val)]"""
        cfg = self.cfg(fr.key)
        rpo, loops = cfg["rpo"], cfg["loops"]
        pend = {}
        exits, backs, rets = [], [], []
        for b, s in starts:
            pend.setdefault(b, []).append(s)
        first = True
        while pend:
            b = min(pend, key=lambda x: rpo[x])
            sts = pend.pop(b)
            if len(sts) > 1 or (cfg["npred"].get(b, 1) > 1):
                sts = [self.prune(fr, cfg, b, s) for s in sts]
                sts = self.merge_states(sts)
            if b in loops and not (b == header and first):
                if self.phase_reset and not self.loopstack:
                    sts = self.new_phase(fr, b, sts)
                for s in sts:
                    ex, rt = self.handle_loop(fr, b, s)
                    rets.extend(rt)
                    for eb, es in ex:
                        if blocks is not None and eb not in blocks:
                            exits.append((eb, es))
                        elif eb == header:
                            backs.append(es)
                        else:
                            pend.setdefault(eb, []).append(es)
                continue
            first = False
            for s in sts:
                for eb, es in self.block(fr, b, s, rets):
                    if header is not None and eb == header:
                        backs.append(es)
                    elif blocks is not None and eb not in blocks:
                        exits.append((eb, es))
                    else:
                        pend.setdefault(eb, []).append(es)
        return exits, backs, rets

    # ---- phases
    phase_reset = False

    def new_phase(self, fr, b, sts):
        """forget the path condition at the entry of a top-level loop: from here on path conditions are
        relative to `this loop was entered`; several abstract states are told apart by a world atom"""
        pid = ("phase", len(self.phases))
        self.phases.append((fr.key, b, fr.body["blocks"][b]["l"], [s.pc for s in sts], sts, len(self.events)))
        out = sts[0].copy()
        out.pc = EMPTY_PC
        for k in set().union(*[s.ver for s in sts]):
            vs = {s.ver.get(k, 0) for s in sts}
            if len(vs) > 1:
                out.ver[k] = ("j", pid)
        paths = set()
        for s in sts[1:]:
            for c in list(out.mem):
                if c not in s.mem:
                    del out.mem[c]
        for c, v in out.mem.items():
            for s in sts[1:]:
                ps = set()
                self.diff(v, s.mem[c], (), ps)
                paths |= {(c, p) for p in ps}
        known, late = {}, []
        for c, p in sorted(paths, key=lambda x: (len(x[1]), repr(x))):
            if any((c, p[:i]) in paths for i in range(len(p))):
                continue
            vs = tuple(self.deep(s, self.rdcell(s, c, p)) for s in sts)
            if all(v[0] == "S" and v[1] == "len" and v[3:] == vs[0][3:] for v in vs):
                late.append((c, p, vs))
                continue
            phi = known.get(vs)
            if phi is None:
                phi = known[vs] = S("phi", pid, c, p)
                self.phis[phi] = {"init": [(s.pc, v) for s, v in zip(sts, vs)], "back": []}
            out.mem[c] = self.vset(out, out.mem[c], p, phi)
        for c, p, vs in late:
            # the length of a merged sequence is the length of the merged sequences
            phi = known.get(tuple(v[2] for v in vs))
            if phi is not None:
                phi = S("len", phi, *vs[0][3:])
            else:
                phi = S("phi", pid, c, p)
                self.phis[phi] = {"init": [(s.pc, v) for s, v in zip(sts, vs)], "back": []}
            out.mem[c] = self.vset(out, out.mem[c], p, phi)
        for t in set().union(*[s.sh for s in sts]):
            vs = {s.sh.get(t) for s in sts}
            if len(vs) > 1:
                phi = S("phi", pid, t, ())
                self.phis[phi] = {"init": [(s.pc, self.deep(s, s.sh.get(t, t))) for s in sts], "back": []}
                out.sh[t] = phi
        return [out]

    # ---- loops
    def diff(self, a, b, path, out, d=0):
        if a is b or a == b:
            return
        if d < 8 and a[0] == b[0]:
            if a[0] == "A" and a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]):
                for i, (x, y) in enumerate(zip(a[3], b[3])):
                    self.diff(x, y, path + ((0 if a[1] != OPT else a[2], i),), out, d + 1)
                return
            if a[0] == "T" and len(a[1]) == len(b[1]):
                for i, (x, y) in enumerate(zip(a[1], b[1])):
                    self.diff(x, y, path + ((0, i),), out, d + 1)
                return
        out.add(path)

    def do_havoc(self, st, H, lid):
        if not H:
            return st
        n = st.copy()
        for item in sorted(H, key=lambda x: (len(x[2]) if x[0] == "m" else 0, repr(x))):
            if item[0] == "m":
                _, cell, path = item
                if cell not in n.mem:
                    continue
                phi = S("phi", lid, cell, path)
                v = n.mem[cell]
                okp = True
                for pe in path:
                    if v[0] in ("A", "T", "C"):
                        fl = v[3] if v[0] == "A" else v[1] if v[0] == "T" else v[2]
                        if pe[1] >= len(fl):
                            okp = False
                            break
                        v = fl[pe[1]]
                    else:
                        okp = False
                        break
                if not okp:
                    continue
                n.mem[cell] = self.vset(n, n.mem[cell], path, phi)
            elif item[0] == "s":
                n.sh.pop(item[1], None)
            elif item[0] == "v":
                n.ver[item[1]] = ("phi", lid)
        return n

    def state_diff(self, st0, b, relevant=None):
        out = set()
        for cell, v in st0.mem.items():
            w = b.mem.get(cell)
            if w is None or w is v:
                continue
            ps = set()
            self.diff(v, w, (), ps)
            for p in ps:
                out.add(("m", cell, p))
        for t, v in b.sh.items():
            if t not in st0.sh or st0.sh[t] != v:
                out.add(("s", t))
        for k, v in b.ver.items():
            if st0.ver.get(k) != v:
                out.add(("v", k))
        return out

    def fixpoint(self, st, lid, runner):
        """runner(st) -> (backs, exits, rets).  Generic-iteration analysis of a loop."""
        H = self.havoc.setdefault(lid, set())
        self.stats["loops"].add(lid)
        # unrolling over known lists
        colls0 = dict(self.colls)
        self.silent += 1
        self.warm += 1
        self.loopstack.append(lid)
        try:
            st0 = self.do_havoc(st, H, lid)
            backs, exits, rets = runner(st0)
            new = set()
            for b in backs:
                new |= self.state_diff(st0, b)
        finally:
            self.loopstack.pop()
            self.silent -= 1
            self.warm -= 1
            self.colls = dict(colls0)
        if not H and self.unrollable(st0, new):
            r = self.unroll(st, lid, runner)
            if r is not None:
                return r
        rounds = 0
        while not new <= H:
            H |= new
            rounds += 1
            if rounds > 12:
                self.note("loop fixpoint did not converge")
                break
            self.silent += 1
            self.warm += 1
            self.loopstack.append(lid)
            try:
                st0 = self.do_havoc(st, H, lid)
                backs, exits, rets = runner(st0)
                new = set()
                for b in backs:
                    new |= self.state_diff(st0, b)
                new = {x for x in new if not self.covered(x, H)}
            finally:
                self.loopstack.pop()
                self.silent -= 1
                self.warm -= 1
                self.colls = dict(colls0)
        st0 = self.do_havoc(st, H, lid)
        self.loopstack.append(lid)
        try:
            backs, exits, rets = runner(st0)
        finally:
            self.loopstack.pop()
        if not self.silent:
            for item in H:
                if item[0] == "m":
                    _, cell, path = item
                    phi = S("phi", lid, cell, path)
                    ent = self.phis.setdefault(phi, {"init": [], "back": []})
                    ent["init"].append((st.pc, self.deep(st, self.rdcell(st, cell, path))))
                    for b in backs:
                        if cell in b.mem:
                            ent["back"].append((b.pc, self.deep(b, self.rdcell(b, cell, path))))
            self.loops.setdefault(lid, []).append({"entry": st, "head": st0, "backs": backs, "exits": exits, "rets": rets})
        return exits, rets

    def covered(self, x, H):
        if x in H:
            return True
        if x[0] == "m":
            for i in range(len(x[2])):
                if ("m", x[1], x[2][:i]) in H:
                    return True
        return False

    def unrollable(self, st0, new):
        for x in new:
            if x[0] != "m":
                continue
            _, cell, path = x
            if not path:
                continue
            parent = self.rdcell(st0, cell, path[:-1])
            if parent[0] == "A" and parent[1] == "#it" and path[-1][1] == 2 and parent[3][2][0] == "i":
                src = parent[3][0]
                if src[0] == "V":
                    return True
                if src[0] == "A" and src[1] == "#range" and src[3][0][0] == "i" and src[3][1][0] == "i":
                    return True
        return False

    def unroll(self, st, lid, runner):
        exits, rets = [], []
        cur = [st]
        for n in range(300):
            nxt = []
            for s in cur:
                b, e, r = runner(s)
                nxt.extend(b)
                exits.extend(e)
                rets.extend(r)
            if not nxt:
                return exits, rets
            cur = self.merge_states(nxt)
            if len(cur) > 3000:
                return None
        return None

    def handle_loop(self, fr, h, st):
        cfg = self.cfg(fr.key)
        body = cfg["loops"][h]
        lid = self.ctx(fr.id, ("loop", h), fr.key)
        st = self.prune(fr, cfg, h, st)

        def runner(s):
            ex, ba, rt = self.region(fr, [(h, s)], body, h)
            ba = [self.prune(fr, cfg, h, b) for b in ba]
            return ba, ex, rt

        return self.fixpoint(st, lid, runner)

    # ---- one block
    def block(self, fr, b, st, rets):
        self.stats["blocks"] += 1
        bb = fr.body["blocks"][b]
        self.cur = fr
        st = st.copy()
        for s in bb["s"]:
            k = s[0]
            if k == "=":
                fr.loc = s[3]
                v = self.rvalue(st, fr, s[2], s[1])
                self.assign(st, fr, s[1], v)
            elif k == "dead":
                st.mem.pop((fr.id, s[1]), None)
            elif k == "setdisc":
                pass
        t = bb["t"]
        fr.loc = bb["l"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "ret":
            v = st.mem.get((fr.id, 0), UNIT)
            rets.append((st, v))
            return []
        if k == "drop":
            return [(t[2], st)]
        if k == "assert":
            c = self.operand(st, fr, t[1])
            if t[4] == "bounds":
                return [(t[3], st)]
            return [(t[3], st)]
        if k == "switch":
            return self.switch(st, fr, t)
        if k == "call":
            f = self.operand(st, fr, t[1])
            args = [self.operand(st, fr, a) for a in t[2]]
            outs = self.call(st, fr, b, f, args, t)
            if t[4] is None:
                return []
            r = []
            outs = [o for o in outs if o[1] is not None]
            for s, v in outs:
                self.cur = fr
                fr.loc = bb["l"]
                if len(outs) > 1 or s is st:
                    s = s.copy()
                self.assign(s, fr, t[3], v)
                r.append((t[4], s))
            return r
        if k in ("unreach", "resume"):
            return []
        self.note("terminator " + str(t)[:60])
        return []

    def assign(self, st, fr, place, v):
        cell, proj = (fr.id, place[0]), place[1]
        if not proj:
            st.mem[cell] = v
            return
        r = self.resolve(st, fr, place, True)
        if r[0] == "cell":
            self.wr(st, ("R", r[1], r[2]), (), v)
            if self.store_hook:
                self.store_hook(st, fr, r, v)
        else:
            if r[1][0] == "S":
                self.symstore(st, r[1], (), v)
            else:
                self.note("store to value place %s" % (pp(r[1])[:60]))

    store_hook = None

    def materialise(self, st, fr, place, n, cur, var):
        """give the unknown value held by a cell a known shape, so that a field of it can be written"""
        base = self.rdcell(st, cur[1], cur[2])
        path = self.adt_of(self.place_ty(fr, [place[0], place[1][:n]]))
        a = self.adts.get(path)
        if not a:
            return False
        if a["kind"] == "enum" and not any(e[0] == "d" for e in place[1][:n + 1][-2:]):
            return False
        nf = len(a["variants"][var]["fields"])
        v = ("A", path, var, tuple(self.symf(st, base, var, i) for i in range(nf)))
        self.wr(st, ("R", cur[1], cur[2]), (), v)
        return True

    def resolve(self, st, fr, place, mat=False):
        """-> ('cell', cell, path) or ('val', value)"""
        cur = ("cell", (fr.id, place[0]), ())
        var = 0
        for n, e in enumerate(place[1]):
            k = e[0]
            if k == "*":
                v = self.rdcell(st, cur[1], cur[2]) if cur[0] == "cell" else cur[1]
                if v[0] == "R":
                    cur = ("cell", v[1], v[2])
                elif v[0] == "S":
                    cur = ("val", v)
                # else: transparent (Box, reference to a literal)
                continue
            if k == "d":
                var = e[1]
                continue
            if k == "f":
                pe = (var, e[1])
                var = 0
            elif k == "i":
                pe = ("ix", self.deep(st, st.mem.get((fr.id, e[1]), S("undef", "index"))))
            elif k == "ci":
                pe = ("ix", ("i", e[1])) if not e[3] else ("ix", S("fromend", e[1]))
            else:
                v = self.rdcell(st, cur[1], cur[2]) if cur[0] == "cell" else cur[1]
                return ("val", S("subslice", self.deep(st, v), ("i", e[1] if len(e) > 1 and isinstance(e[1], int) else 0)))
            if cur[0] == "cell":
                base = self.rdcell(st, cur[1], cur[2])
                if mat and k == "f" and base[0] == "S" and base[1] != "undef":
                    m = n
                    while m > 0 and place[1][m - 1][0] == "d":
                        m -= 1
                    if self.materialise(st, fr, place, m, cur, pe[0]):
                        base = self.rdcell(st, cur[1], cur[2])
                if base[0] == "R":
                    cur = ("cell", base[1], base[2] + (pe,))
                elif base[0] in ("S", "M") and not (base[0] == "S" and base[1] == "undef"):
                    if pe[0] == "ix":
                        cur = ("val", self.vget(st, base, pe))
                    else:
                        cur = ("val", self._symplace(st, base, pe))
                else:
                    cur = ("cell", cur[1], cur[2] + (pe,))
            else:
                v = cur[1]
                if v[0] == "R":
                    cur = ("cell", v[1], v[2] + (pe,))
                elif v[0] == "S" and pe[0] != "ix":
                    cur = ("val", self._symplace(st, v, pe))
                else:
                    cur = ("val", self.vget(st, v, pe))
        return cur

    def _transparent(self, st, fr, place):
        """the cell holding a value that is its own reference (`&*x` where x was given by value)"""
        x = self.resolve(st, fr, (place[0], place[1][:-1]))
        return (x[1], x[2]) if x[0] == "cell" else None

    def _symplace(self, st, base, pe):
        # the place term; its current contents are looked up (overlay) when it is read
        t = self.symf_place(base, pe[0], pe[1])
        v = st.sh.get(t)
        if v is not None and v[0] in ("R",):
            return v
        return t

    def read_place(self, st, fr, place):
        r = self.resolve(st, fr, place)
        if r[0] == "cell":
            return self.rdcell(st, r[1], r[2])
        v = r[1]
        if v[0] == "S" and v in st.sh:
            return st.sh[v]
        return v

    def operand(self, st, fr, o):
        k = o[0]
        if k in ("cp", "mv"):
            return self.read_place(st, fr, o[1])
        if k == "c":
            return self.const(st, fr, o[1])
        return S("rtcheck")

    def const(self, st, fr, c):
        k = c["k"]
        if k == "int":
            return ("i", c["v"])
        if k == "str":
            return ("s", c["v"])
        if k == "zst":
            t = self.types.get(c["ty"], {})
            if t.get("k") == "closure":
                return ("C", t["key"], ())
            if t.get("k") == "adt":
                return ("A", t["path"], 0, ())
            return UNIT
        if k == "fn":
            return self.fnval(c)
        if k in ("promoted", "const"):
            key = c["of"] + ("#promoted%d" % c["idx"] if k == "promoted" else "")
            v = self.constcache.get(key)
            if v is None:
                if key not in self.bodies:
                    return S("const", key)
                self.silent += 1
                try:
                    outs = self.call_body(St(), Frame(0, None, "const", None), ("const", key), key, [])
                finally:
                    self.silent -= 1
                v = self.deep(outs[0][0], self._constfix(outs[0])) if outs else S("const", key)
                self.constcache[key] = v
            return v
        if k in ("slice", "mem", "ptr"):
            m = c["mem"]
            if "bytes" in m and not m["ptrs"]:
                bs = bytes(m["bytes"])
                if k == "slice":
                    bs = bs[: c["len"]]
                return ("by", bs)
            return S("constmem", c["ty"])
        return S("const", c.get("path", c["ty"]))

    def _constfix(self, out):
        return out[1]

    def fnval(self, c):
        local = c.get("reslocal") or (c.get("local") if "res" not in c else None)
        return ("F", c.get("res") or c["path"], tuple(c.get("ga", ())), local, c["path"])

    # ---- rvalues
    def rvalue(self, st, fr, r, dst):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            x = self.resolve(st, fr, r[2], r[1] == "mut")
            if x[0] == "cell":
                if r[2][1] and r[2][1][-1][0] == "*" and r[1] != "mut":
                    v = self.rdcell(st, x[1], x[2])
                    if v[0] in ("s", "i", "by", "F", "M", "V", "C", "T", "A") and (x[1], x[2]) == self._transparent(st, fr, r[2]):
                        return v
                return ("R", x[1], x[2])
            return x[1]
        if k == "agg":
            ops = tuple(self.operand(st, fr, o) for o in r[2])
            a = r[1]
            if a[0] == "adt":
                if a[1] == "std::borrow::Cow":
                    return ops[0]
                return ("A", a[1], a[2], ops)
            if a[0] == "tuple":
                return ("T", ops)
            if a[0] == "array":
                return ("V", ops)
            if a[0] == "closure":
                return ("C", a[1], ops)
            return S("agg", *ops)
        if k == "disc":
            x = self.resolve(st, fr, r[1])
            v = self.rdcell(st, x[1], x[2]) if x[0] == "cell" else st.sh.get(x[1], x[1])
            v = self.load(st, v)
            ty = self.place_ty(fr, r[1])
            return self.discr(v, ty)
        if k == "cast":
            v = self.operand(st, fr, r[2])
            if r[1] == "IntToInt":
                return self.int_cast(st, v, r[3], self.op_ty(fr, r[2]))
            return v
        if k == "bin":
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            ty = self.op_ty(fr, r[2])
            return self.binop(st, r[1], a, b, ty)
        if k == "un":
            v = self.load(st, self.operand(st, fr, r[2]))
            ty = self.op_ty(fr, r[2])
            if r[1] == "Not":
                if ty == "bool":
                    return self.bnot(v)
                if v[0] == "i":
                    return ("i", self.wrap(~v[1], ty))
                for h in self.binop_hooks:
                    x = h(st, "Not", v, None, ty)
                    if x is not None:
                        return x
                return S("inv", v)
            if r[1] == "Neg":
                return ("i", self.wrap(-v[1], ty)) if v[0] == "i" else S("neg", v)
            if r[1] == "PtrMetadata":
                return self.length(st, v)
            return S(r[1], v)
        if k == "rep":
            v = self.operand(st, fr, r[1])
            try:
                n = int(str(r[2]).split("_")[0])
            except ValueError:
                return S("rep", v)
            return ("V", (v,) * n) if n <= 256 else S("rep", v)
        self.note("rvalue " + str(r)[:60])
        return S("rv", str(r)[:60])

    def length(self, st, v):
        v = self.load(st, v)
        if v[0] == "V":
            return ("i", len(v[1]))
        if v[0] == "s":
            return ("i", len(v[1].encode()))
        if v[0] == "by":
            return ("i", len(v[1]))
        return S("len", v)

    def bnot(self, v):
        if v[0] == "i":
            return ("i", 1 - v[1])
        if v[0] == "S" and v[1] == "not":
            return v[2]
        return S("not", v)

    def place_ty(self, fr, p):
        t = fr.body["locals"][p[0]][0]
        for e in p[1]:
            d = self.types.get(t, {})
            if e[0] == "*":
                t = d.get("to") or (d.get("args") or [None])[0]
            elif e[0] == "f":
                t = e[2]
            elif e[0] in ("i", "ci"):
                t = d.get("of")
        return t

    def op_ty(self, fr, o):
        if o[0] in ("cp", "mv"):
            return self.place_ty(fr, o[1])
        if o[0] == "c":
            return o[1]["ty"]
        return "bool"

    def adt_of(self, ty):
        d = self.types.get(ty, {})
        while d.get("k") in ("ref", "ptr"):
            d = self.types.get(d["to"], {})
        return d.get("path") if d.get("k") == "adt" else None

    def discr(self, v, ty):
        path = self.adt_of(ty)
        if v[0] == "A":
            a = self.adts.get(v[1])
            return ("i", a["variants"][v[2]]["d"] if a else v[2])
        return S("disc", v, path)

    BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64,
            "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64, "char": 32, "bool": 8}

    def wrap(self, n, ty):
        b = self.BITS.get(ty)
        if b is None:
            return n
        n &= (1 << b) - 1
        if ty[0] == "i" and n >> (b - 1):
            n -= 1 << b
        return n

    def int_cast(self, st, v, to, frm):
        v = self.load(st, v)
        if v[0] == "i":
            return ("i", self.wrap(v[1], to))
        for h in self.binop_hooks:
            x = h(st, "Cast", v, None, (to, frm))
            if x is not None:
                return x
        if v[0] == "S" and v[1] == "disc":
            return v
        tb, fb = self.BITS.get(to, 64), self.BITS.get(frm, 64)
        if tb < fb and not (tb == 32 and self.device_word(v)):
            return S("trunc", to, v)
        return v

    def device_word(self, v):
        """a figure read from the program's ELF file: addresses and sizes on the device have 32 bits"""
        if v[0] == "i":
            return True
        if v[0] != "S" or not self.elf_words:
            return False
        if v[1] in ("add", "neg", "sub", "and", "mul"):
            return all(self.device_word(x) for x in v[2:] if isinstance(x, tuple))
        return v[1] in ("size", "key") or v[1] == "call" and v[2].rsplit("::", 1)[1] in ("address", "value", "size")

    def binop(self, st, op, a, b, ty):
        a, b = self.load(st, a), self.load(st, b)
        over = op.endswith("WithOverflow")
        if over:
            op = op[:-12]
        if op.endswith("Unchecked"):
            op = op[:-9]
        r = self.binop1(st, op, a, b, ty)
        return ("T", (r, FALSE)) if over else r

    def binop1(self, st, op, a, b, ty):
        for h in self.binop_hooks:
            x = h(st, op, a, b, ty)
            if x is not None:
                return x
        if a[0] == "i" and b[0] == "i":
            x, y = a[1], b[1]
            f = {
                "Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y,
                "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                "Shl": lambda: x << (y % self.BITS.get(ty, 64)), "Shr": lambda: x >> (y % self.BITS.get(ty, 64)),
                "Div": lambda: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1) if y else 0,
                "Rem": lambda: (abs(x) % abs(y)) * (1 if x >= 0 else -1) if y else 0,
            }.get(op)
            if f:
                return ("i", self.wrap(f(), ty))
            c = {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}.get(op)
            if c is not None:
                return ("i", int(c))
        if op == "Eq":
            return self.eq(a, b)
        if op == "Ne":
            return self.bnot(self.eq(a, b))
        if op == "Lt":
            return self.lt(a, b)
        if op == "Gt":
            return self.lt(b, a)
        if op == "Le":
            return self.bnot(self.lt(b, a))
        if op == "Ge":
            return self.bnot(self.lt(a, b))
        if ty == "bool":
            o = {"BitAnd": "and", "BitOr": "or", "BitXor": "xor"}.get(op)
            if o:
                for x, y in ((a, b), (b, a)):
                    if x[0] == "i":
                        if o == "and":
                            return y if x[1] else FALSE
                        if o == "or":
                            return TRUE if x[1] else y
                        return self.bnot(y) if x[1] else y
                return S(o, a, b)
        if op == "Add":
            return self.add(a, b)
        if op == "Sub":
            if b == ("i", 0):
                return a
            if a == b:
                return ("i", 0)
            return self.add(a, self.neg(b))
        if op in ("Mul", "BitAnd", "BitOr", "BitXor"):
            a, b = sorted((a, b), key=repr)
        return S(op.lower(), a, b)

    def neg(self, v):
        if v[0] == "i":
            return ("i", -v[1])
        if v[0] == "S" and v[1] == "neg":
            return v[2]
        if v[0] == "S" and v[1] == "add":
            return self.sum([self.neg(x) for x in v[2:]])
        return S("neg", v)

    def add(self, a, b):
        return self.sum([a, b])

    def sum(self, vs):
        c, terms = 0, []
        for v in vs:
            for x in (v[2:] if v[0] == "S" and v[1] == "add" else (v,)):
                if x[0] == "i":
                    c += x[1]
                else:
                    n = x[2] if x[0] == "S" and x[1] == "neg" else S("neg", x)
                    if n in terms:
                        terms.remove(n)
                    else:
                        terms.append(x)
        if c or not terms:
            terms.append(("i", c))
        if len(terms) == 1:
            return terms[0]
        return S("add", *sorted(terms, key=repr))

    def eq(self, a, b):
        if a == b:
            return TRUE
        if a[0] == "i" and b[0] == "i":
            return FALSE
        if a[0] == "s" and b[0] == "s":
            return TRUE if a[1] == b[1] else FALSE
        if b[0] == "s":
            return S("seq", a, b[1])
        if a[0] == "s":
            return S("seq", b, a[1])
        x, y = sorted((a, b), key=repr)
        return S("eq", x, y)

    def lt(self, a, b):
        if a == b:
            return FALSE
        if b[0] == "S" and b[1] == "len" and len(b) in (3, 4) and a[0] == "S" and a[1] == "phi":
            return S("more", b[2], a)
        return S("lt", a, b)

    # ---- switch
    def switch(self, st, fr, t):
        v = self.load(st, self.operand(st, fr, t[1]))
        targets, other = t[2], t[3]
        if v[0] == "i":
            n = v[1]
            b = self.BITS.get(t[4], 64)
            if n < 0:
                n &= (1 << b) - 1
            for x, bb in targets:
                if x == n:
                    return [(bb, st)]
            return [(other, st)]
        for h in self.switch_hooks:
            r = h(st, v, targets)
            if r is not None:
                return [(dict(map(tuple, targets)).get(n, other) if n is not None else other, s) for s, n in r]
        if v[0] == "S" and v[1] == "disc":
            base, path = v[2], v[3]
            a = self.adts.get(path)
            if a:
                n = len(a["variants"])
                dmap = {x["d"]: i for i, x in enumerate(a["variants"])}
                r, rest = [], set(range(n))
                for x, bb in targets:
                    k = dmap.get(x)
                    if k is None:
                        continue
                    rest.discard(k)
                    s = self.restrict(st, ("var", base, n), ("in", frozenset([k])))
                    if s is not None:
                        r.append((bb, s))
                if rest:
                    s = self.restrict(st, ("var", base, n), ("in", frozenset(rest)))
                    if s is not None:
                        r.append((other, s))
                return r
        if t[4] == "bool":
            d = dict(map(tuple, targets))
            r = []
            for s, b in self.fork_bool(st, v):
                r.append((d.get(int(b), other), s))
            return r
        r, vals = [], set()
        for x, bb in targets:
            vals.add(x)
            s = self.restrict(st, ("val", v), ("in", frozenset([x])))
            if s is not None:
                r.append((bb, s))
        s = self.restrict(st, ("val", v), ("not", frozenset(vals)))
        if s is not None:
            r.append((other, s))
        return r

    # ---- calls
    def call(self, st, fr, site, f, args, t=None):
        """-> [(state, value)]"""
        f = self.load(st, f)
        if f[0] == "C":
            return self.apply(st, fr, site, f, args)
        if f[0] != "F":
            r = self.call_value_hook(st, fr, site, f, args) if self.call_value_hook else None
            if r is not None:
                return r
            a = tuple(self.deep(st, x) for x in args)
            self.ev(st, fr, "call", "?", (f,) + a)
            return [(st, S("callv", f, *a))]
        return self.call_fn(st, fr, site, f, args, t)

    call_value_hook = None

    def call_fn(self, st, fr, site, f, args, t=None):
        path, ga, local, tpath = f[1], f[2], f[3], f[4]
        km = self.key_models.get(local) if local else None
        if km is not None:
            r = km(self, st, Call(fr, site, f, args, t))
            if r is not None:
                return self._norm_out(st, r)
        if local and len(args) == 2 and tpath.rsplit("::", 1)[-1] in ("call", "call_mut", "call_once") and "ops::" in tpath:
            m = self.models.get(norm(tpath))
            if m is not None:
                return self._norm_out(st, m(self, st, Call(fr, site, f, args, t)))
        if local and local in self.bodies:
            if self.bodies[local].get("derived"):
                op = tpath.rsplit("::", 1)[1]
                if op == "clone":
                    v = self.load(st, args[0])
                    return [(st, v if v[0] == "M" else self.deep(st, v))]
                if op == "eq":
                    import models
                    return models.veq(self, st, args[0], args[1])
                if op in ("fmt", "hash", "assert_fields_are_eq"):
                    return [(st, S("derived", op, *[self.deep(st, a) for a in args[:1]]))]
            return self.call_body(st, fr, site, local, args)
        np_ = norm(path)
        m = self.models.get(np_)
        if m is None:
            m = self.models.get(norm(tpath))
        if m is not None:
            r = m(self, st, Call(fr, site, f, args, t))
            if r is not None:
                return self._norm_out(st, r)
        # constructors used as functions
        c = self.ctor.get(np_)
        if c is None and np_.endswith("{constructor#0}"):
            c = self.ctor.get(np_.rsplit("::", 1)[0])
        if c is not None:
            return [(st, ("A", c[0], c[1], tuple(args)))]
        return self.opaque(st, fr, site, f, args, t)

    def _norm_out(self, st, r):
        if isinstance(r, tuple) and r and isinstance(r[0], str):
            return [(st, r)]
        return r

    def opaque(self, st, fr, site, f, args, t=None):
        np_ = norm(f[1])
        self.opaque_calls[np_] = self.opaque_calls.get(np_, 0) + 1
        a = tuple(self.deep(st, x) for x in args)
        self.ev(st, fr, "call", np_, a)
        # &mut arguments holding plain data may be overwritten
        if t is not None:
            for o, x in zip(t[2], args):
                if str(self.op_ty(fr, o)).startswith("&mut"):
                    v = self.deep(st, x)
                    if v[0] in ("M", "S"):
                        self.ev(st, fr, "mutcall", v, np_)
                if x[0] == "R" and str(self.op_ty(fr, o)).startswith("&mut"):
                    v = self.load(st, x)
                    if v[0] in ("i", "A", "T", "V") and not (v[0] == "A" and v[1] == "#it"):
                        st = st.copy()
                        self.wr(st, x, (), S("mutated", np_, self.ctx(fr.id, ("site", site), fr.key)))
        mutating = t is not None and any(str(self.op_ty(fr, o)).startswith("&mut") for o in t[2])
        if mutating:
            return [(st, S("call", np_, *(a + (("site", self.ctx(fr.id, ("site", site), fr.key)),))))]
        return [(st, S("call", np_, *a))]

    def apply(self, st, fr, site, f, args):
        """call a closure / fn value with unpacked arguments"""
        fv = self.load(st, f)
        if fv[0] == "A" and fv[1] == "#nodeweight":
            return [(st, S("at", fv[3][0], self.deep(st, args[0])))]
        if fv[0] == "A" and fv[1] == "#noderef":
            n = self.deep(st, args[0])
            return [(st, tup(n, S("at", fv[3][0], n)))]
        if fv[0] == "C":
            key = fv[1]
            if key not in self.bodies:
                return self.opaque(st, fr, site, ("F", key, (), None, key), args)
            body = self.bodies[key]
            t1 = body["locals"][1][0] if body["argc"] >= 1 else ""
            if t1.startswith("&"):
                if f[0] == "R":
                    # innermost reference that designates the closure itself
                    ref = f
                    while True:
                        v = self.rdcell(st, ref[1], ref[2])
                        if v[0] == "R":
                            ref = v
                        else:
                            break
                    env = ref
                else:
                    cell = ("env", self.ctx(fr.id, ("env", site), key), 0)
                    st = st.copy()
                    st.mem[cell] = fv
                    env = ("R", cell, ())
            else:
                env = fv
            outs = self.call_body(st, fr, site, key, [env] + list(args))
            if env[0] == "R" and env[1][0] == "env":
                for s, _ in outs:
                    s.mem.pop(env[1], None)
            return outs
        if fv[0] == "F":
            return self.call_fn(st, fr, site, fv, list(args))
        if self.call_value_hook:
            r = self.call_value_hook(st, fr, site, fv, list(args))
            if r is not None:
                return r
        a = tuple(self.deep(st, x) for x in args)
        return [(st, S("callv", fv, *a))]

    def run(self, key, args=(), st=None):
        st = st or St()
        root = Frame(0, None, "<root>", None)
        root.loc = "entry"
        st.mem.setdefault(("#tape", S("stdout")), ("s", ""))
        return self.call_body(st, root, ("root", key), key, list(args))

    # ---- panics
    def panic(self, st, fr, *data):
        self.ev(st, fr, "panic", *data)
        return []


class Call:
    __slots__ = ("fr", "site", "f", "args", "t")

    def __init__(self, fr, site, f, args, t):
        self.fr, self.site, self.f, self.args, self.t = fr, site, f, args, t

    @property
    def path(self):
        return norm(self.f[1])

    @property
    def ga(self):
        return self.f[2]


def subst(v, m, memo=None):
    """replace sub-terms"""
    if memo is None:
        memo = {}
    if not isinstance(v, (tuple, frozenset)):
        return v
    if isinstance(v, frozenset):
        return frozenset(subst(x, m, memo) for x in v)
    r = memo.get(v)
    if r is None:
        if v in m:
            r = m[v]
        else:
            r = tuple(subst(x, m, memo) for x in v)
            if r == v:
                r = v
        memo[v] = r
    return r


def subterms(v):
    if isinstance(v, tuple):
        yield v
        for x in v:
            yield from subterms(x)


def contains(v, p):
    return any(p(x) for x in subterms(v))
