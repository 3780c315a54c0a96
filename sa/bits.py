"""A bit-precise guard domain for the engine: values that are functions of a few machine-code bits are kept as vectors of
binary decision diagrams, a state carries the set of encodings it is reachable for (`St.dom`), and states that differ only
in such values are merged."""
from engine import S, OPT  # noqa: F401


class BDD:
    """reduced ordered binary decision diagrams; 0 and 1 are the terminals"""

    def __init__(self):
        self.n = [(10 ** 9, 0, 0), (10 ** 9, 1, 1)]
        self.u = {}
        self.m = {}

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        r = self.u.get(k)
        if r is None:
            r = self.u[k] = len(self.n)
            self.n.append(k)
        return r

    def var(self, i):
        return self.mk(i, 0, 1)

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.m.get(k)
        if r is not None:
            return r
        n = self.n
        v = min(n[f][0], n[g][0], n[h][0])

        def co(x, b):
            return n[x][1 + b] if n[x][0] == v else x
        r = self.mk(v, self.ite(co(f, 0), co(g, 0), co(h, 0)), self.ite(co(f, 1), co(g, 1), co(h, 1)))
        self.m[k] = r
        return r

    def neg(self, f):
        return self.ite(f, 0, 1)

    def and_(self, f, g):
        return self.ite(f, g, 0)

    def or_(self, f, g):
        return self.ite(f, 1, g)

    def xor(self, f, g):
        return self.ite(f, self.neg(g), g)

    def any_sat(self, f):
        """one satisfying assignment {var: 0/1}"""
        r = {}
        while f > 1:
            v, lo, hi = self.n[f]
            if lo != 0:
                r[v] = 0
                f = lo
            else:
                r[v] = 1
                f = hi
        return r

    def count(self, f, nvars):
        m = {}

        def go(x):
            if x < 2:
                return x, 0
            if x not in m:
                v, lo, hi = self.n[x]
                m[x] = (frac(lo) + frac(hi)) / 2
            return m[x], 0

        def frac(x):
            return go(x)[0] if x > 1 else x
        from fractions import Fraction
        return int(Fraction(frac(f)) * 2 ** nvars) if f > 1 else f * 2 ** nvars


WIDTH = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64,
         "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64, "char": 32, "bool": 1}


class Bits:
    """byte(term) -> allocation key of a byte-valued term or None;  flag(term) -> allocation key of a boolean term or None"""

    def __init__(self, E, byte, flag):
        self.E, self.B = E, BDD()
        self.byte, self.flag = byte, flag
        self.vars = {}          # key -> base variable
        self.nv = 0
        self.vals = []          # (signed, nodes)
        self.vix = {}
        E.binop_hooks.append(self.binop)
        E.switch_hooks.append(self.switch)
        E.dom_join = self.join
        E.dom_merge = self.merge_doms
        E.dom_rets = self.join_rets
        E.bits = self

    def alloc(self, key, n):
        if key not in self.vars:
            self.vars[key] = self.nv
            self.nv += n
        return self.vars[key]

    # ---- values: mathematical integers as two's complement of unbounded width; (signed, nodes)
    def norm(self, signed, nodes):
        nodes = list(nodes)
        if signed:
            while len(nodes) > 1 and nodes[-1] == nodes[-2]:
                nodes.pop()
            if nodes and nodes[-1] == 0:
                signed = False
        if not signed:
            while nodes and nodes[-1] == 0:
                nodes.pop()
        return signed, tuple(nodes)

    def value(self, signed, nodes):
        signed, nodes = self.norm(signed, nodes)
        if all(x < 2 for x in nodes):
            n = sum(x << i for i, x in enumerate(nodes))
            if signed:
                n -= nodes[-1] << len(nodes)
            return ("i", n)
        k = (signed, nodes)
        if k not in self.vix:
            self.vix[k] = len(self.vals)
            self.vals.append(k)
        return S("bv", self.vix[k])

    def boolean(self, n):
        return ("i", n) if n < 2 else S("bb", n)

    def bb(self, v):
        """the diagram of a boolean value, or None"""
        if v[0] == "i":
            return v[1] & 1
        if v[0] != "S":
            return None
        if v[1] == "bb":
            return v[2]
        if v[1] == "not":
            x = self.bb(v[2])
            return None if x is None else self.B.neg(x)
        if v[1] in ("and", "or", "xor"):
            x, y = self.bb(v[2]), self.bb(v[3])
            if x is None or y is None:
                return None
            return {"and": self.B.and_, "or": self.B.or_, "xor": self.B.xor}[v[1]](x, y)
        if v[1] == "bv":
            s, n = self.vals[v[2]]
            return n[0] if len(n) == 1 else None
        k = self.flag(v)
        if k is not None:
            return self.B.var(self.alloc(k, 1))
        return None

    def bv(self, v):
        """(signed, nodes) of an integer value, or None"""
        if v[0] == "i":
            n = v[1]
            w = max(n.bit_length() + 1, 1)
            return self.norm(n < 0, [(n >> i) & 1 for i in range(w)])
        if v[0] != "S":
            return None
        if v[1] == "bv":
            return self.vals[v[2]]
        if v[1] in ("bb", "not"):
            x = self.bb(v)
            return None if x is None else (False, (x,))
        if v[1] == "trunc" and len(v) == 4:
            x = self.bv(v[3])
            return None if x is None else self.norm(v[2][0] == "i", self.fit(x, WIDTH[v[2]]))
        k = self.byte(v)
        if k is not None:
            b = self.alloc(k, 8)
            return (False, tuple(self.B.var(b + 7 - i) for i in range(8)))
        k = self.flag(v)
        if k is not None:
            return (False, (self.B.var(self.alloc(k, 1)),))
        return None

    def fit(self, x, w):
        s, n = x
        n = list(n[:w])
        while len(n) < w:
            n.append(x[1][-1] if s and x[1] else 0)
        return n

    def isbits(self, v):
        return v is not None and v[0] == "S" and (v[1] in ("bv", "bb") or v[1] == "not" and self.isbits(v[2]) or self.byte(v) is not None or self.flag(v) is not None
                                                  or v[1] == "trunc" and self.isbits(v[3]))

    def addn(self, a, b, c=0):
        B = self.B
        out = []
        for x, y in zip(a, b):
            t = B.xor(x, y)
            out.append(B.xor(t, c))
            c = B.or_(B.and_(x, y), B.and_(t, c))
        return out, c

    def eqn(self, a, b):
        B, r = self.B, 1
        for x, y in zip(reversed(a), reversed(b)):
            r = B.and_(r, B.neg(B.xor(x, y)))
            if r == 0:
                return 0
        return r

    def ltn(self, a, b):
        """unsigned"""
        B, r = self.B, 0
        for x, y in zip(a, b):
            r = B.ite(B.xor(x, y), y, r)
        return r

    def iten(self, g, a, b):
        w = max(len(a[1]), len(b[1])) + 1
        return self.norm(a[0] or b[0], [self.B.ite(g, x, y) for x, y in zip(self.fit(a, w), self.fit(b, w))])

    # ---- engine hooks
    def binop(self, st, op, a, b, ty):
        if op == "Cast" and a[0] == "S" and a[1] == "add" and ty[1][0] == "i" and ty[0][0] == "u" and any(self.isbits(x) for x in a[2:]):
            return S("ucast", a)        # a negative number becomes a huge one
        if not (self.isbits(a) or b is not None and self.isbits(b)):
            return None
        B = self.B
        if op == "Cast":
            to, frm = ty
            if frm == "bool":
                x = self.bb(a)
                return None if x is None else self.value(False, [x])
            x = self.bv(a)
            if x is None or to not in WIDTH:
                return None
            return self.value(to[0] == "i", self.fit(x, WIDTH[to]))
        if ty == "bool":
            x = self.bb(a)
            y = self.bb(b) if b is not None else None
            if x is None or b is not None and y is None:
                return None
            f = {"BitAnd": B.and_, "BitOr": B.or_, "BitXor": B.xor, "Eq": lambda p, q: B.neg(B.xor(p, q)), "Ne": B.xor,
                 "Lt": lambda p, q: B.and_(B.neg(p), q), "Gt": lambda p, q: B.and_(p, B.neg(q)),
                 "Le": lambda p, q: B.or_(B.neg(p), q), "Ge": lambda p, q: B.or_(p, B.neg(q))}.get(op)
            return self.boolean(f(x, y)) if f else None
        w = WIDTH.get(ty)
        if w is None:
            return None
        sg = ty[0] == "i"
        x = self.bv(a)
        y = self.bv(b) if b is not None else None
        if x is None or b is not None and y is None:
            return None
        if op == "CountOnes":
            acc = [0] * 8
            for n in self.fit(x, w):
                acc, _ = self.addn(acc, [n] + [0] * 7)
            return self.value(False, acc)
        if op == "Not":
            return self.value(sg, [B.neg(n) for n in self.fit(x, w)])
        if op in ("Shl", "Shr", "Rotr", "Rotl"):
            p = self.fit(x, w)
            k = self.fit(y, 32)
            for i in range(w.bit_length() - 1):
                if k[i] == 0:
                    continue
                d = 1 << i
                if op == "Shl":
                    q = [0] * d + p[:w - d]
                elif op == "Shr":
                    q = p[d:] + [p[-1] if sg else 0] * d
                elif op == "Rotr":
                    q = p[d:] + p[:d]
                else:
                    q = p[w - d:] + p[:w - d]
                p = [B.ite(k[i], u, v) for u, v in zip(q, p)]
            return self.value(sg, p)
        p, q = self.fit(x, w), self.fit(y, w)
        if op in ("BitAnd", "BitOr", "BitXor"):
            f = {"BitAnd": B.and_, "BitOr": B.or_, "BitXor": B.xor}[op]
            return self.value(sg, [f(u, v) for u, v in zip(p, q)])
        if op == "Add":
            return self.value(sg, self.addn(p, q)[0])
        if op == "Sub":
            return self.value(sg, self.addn(p, [B.neg(v) for v in q], 1)[0])
        if op == "Mul":
            if not (a[0] == "i" or b[0] == "i"):
                return None
            if a[0] == "i":
                p, q = q, p
            acc = [0] * w
            for i, v in enumerate(q):
                if v == 1:
                    acc, _ = self.addn(acc, [0] * i + p[:w - i])
            return self.value(sg, acc)
        if op in ("Div", "Rem") and b[0] == "i" and b[1] > 0 and b[1] & (b[1] - 1) == 0 and (not sg or p[-1] == 0):
            k = b[1].bit_length() - 1
            return self.value(False, p[k:] if op == "Div" else p[:k])
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if op in ("Eq", "Ne"):
                r = self.eqn(p, q)
                return self.boolean(r if op == "Eq" else B.neg(r))
            if sg:
                p, q = p[:-1] + [B.neg(p[-1])], q[:-1] + [B.neg(q[-1])]
            if op in ("Gt", "Le"):
                p, q = q, p
            r = self.ltn(p, q)
            return self.boolean(r if op in ("Lt", "Gt") else B.neg(r))
        return None

    def dom(self, st):
        return 1 if st.dom is None else st.dom

    def switch(self, st, v, targets):
        d = self.dom(st)
        B = self.B
        if targets is None:
            x = self.bb(v)
            if x is None:
                return None
            r = []
            for g, b in ((B.and_(d, x), 1), (B.and_(d, B.neg(x)), 0)):
                if g:
                    s = st.copy()
                    s.dom = g
                    r.append((s, b))
            return r
        if not self.isbits(v):
            return None
        x = self.bv(v)
        if x is None:
            return None
        r = []
        for n, _ in targets:
            w = max(len(x[1]), n.bit_length()) + 1
            g = B.and_(d, self.eqn(self.fit(x, w), [(n >> i) & 1 for i in range(w)])) if not x[0] else B.and_(d, self.eqn(self.fit(x, 128), [(n >> i) & 1 for i in range(128)]))
            if g:
                s = st.copy()
                s.dom = g
                r.append((s, n))
                d = B.and_(d, B.neg(g))
        if d:
            s = st.copy()
            s.dom = d
            r.append((s, None))
        return r

    # ---- joining states
    def mergeval(self, g, a, b):
        """the value that is `a` where g and `b` elsewhere; None when it is not a bit value"""
        if a == b:
            return a
        if a[0] == b[0]:
            if a[0] == "A" and a[1:3] == b[1:3] and len(a[3]) == len(b[3]):
                l = [self.mergeval(g, x, y) for x, y in zip(a[3], b[3])]
                return None if None in l else ("A", a[1], a[2], tuple(l))
            if a[0] in ("T", "V") and len(a[1]) == len(b[1]):
                l = [self.mergeval(g, x, y) for x, y in zip(a[1], b[1])]
                return None if None in l else (a[0], tuple(l))
        if a[0] not in ("i", "S") or b[0] not in ("i", "S"):
            return None
        x, y = self.bv(a), self.bv(b)
        if x is None or y is None:
            return None
        s, n = self.iten(g, x, y)
        isb = a[0] == "S" and a[1] in ("bb", "not") or b[0] == "S" and b[1] in ("bb", "not")
        if isb and len(n) <= 1 and not s:
            return self.boolean(n[0] if n else 0)
        return self.value(s, n)

    def join2(self, a, b):
        if a.sh != b.sh and not self.E.sh_alike(a.sh, b.sh) or a.pc != b.pc or set(a.mem) != set(b.mem) or a.ver != b.ver:
            return None
        ga, gb = self.dom(a), self.dom(b)
        mem = {}
        for k, v in a.mem.items():
            w = b.mem[k]
            if v is not w and v != w:
                if ga == gb:
                    return None
                v = self.mergeval(ga, v, w)
                if v is None:
                    return None
            mem[k] = v
        n = a.copy()
        n.mem = mem
        if a.sh != b.sh:
            n.sh = {k: v for k, v in a.sh.items() if b.sh.get(k) == v}
        n.dom = self.B.or_(ga, gb)
        return n

    def merge_doms(self, a, b):
        return None if a is b is None else self.B.or_(1 if a is None else a, 1 if b is None else b)

    def join(self, l):
        out = []
        for s in l:
            for i, g in enumerate(out):
                n = self.join2(g, s)
                if n is not None:
                    out[i] = n
                    break
            else:
                out.append(s)
        return out

    def join_rets(self, outs):
        out = []
        for s, v in outs:
            s = s.copy()
            s.mem[("ret",)] = v
            out.append(s)
        r = []
        for s in self.join(out):
            v = s.mem.pop(("ret",))
            r.append((s, v))
        return r

    # ---- for the checks
    def pcbdd(self, pc):
        """a path condition as a diagram over one variable per opaque atom value"""
        B, r = self.B, 0
        for conj in pc:
            c = 1
            for atom, cons in conj:
                c = B.and_(c, self.atombdd(atom, cons))
            r = B.or_(r, c)
        return r

    def atombdd(self, atom, cons):
        B = self.B
        if atom[0] == "b":
            x = self.bb(atom[1])
            if x is None:
                x = B.var(self.alloc(("atom", atom), 1))
            vals = [B.neg(x), x]
            n = 2
        else:
            n = atom[2] if atom[0] == "var" else None
            if n == 2:
                x = B.var(self.alloc(("atom", atom), 1))
                vals = [B.neg(x), x]
            else:
                vals = None
        if vals is not None:
            r = 0
            for i in range(n):
                if (i in cons[1]) == (cons[0] == "in"):
                    r = B.or_(r, vals[i])
            return r
        # a valued atom: one variable per value met, mutual exclusion left implicit
        r = 0
        for i in sorted(cons[1]):
            r = B.or_(r, B.var(self.alloc(("atom", atom, i), 1)))
        return r if cons[0] == "in" else B.neg(r)
