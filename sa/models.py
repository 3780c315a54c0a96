"""Models of the library functions the analysed crate calls (std, petgraph, log, fmt ...).

Each model maps an abstract state and arguments to [(state, value)]; anything without a model
becomes an opaque provenance term ('call', path, args) and a 'call' event."""
import re
from mir import norm

M = {}


def reg(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def canon(p):
    for x in ("core::", "alloc::"):
        if p.startswith(x):
            p = "std::" + p[len(x):]
    return p


def install(E):
    import engine as e
    globals().update({k: getattr(e, k) for k in (
        "S", "some", "ok", "err", "tup", "UNIT", "TRUE", "FALSE", "NONE", "OPT", "RES", "CF", "pp", "subst",
        "subterms", "contains", "Incomplete", "St")})

    class Reg(dict):
        def get(self, k, d=None):
            return M.get(canon(k)) or pattern(canon(k))
    E.models = Reg()


# identity-like conversions (references, boxes, owned/borrowed strings are transparent)
IDENT = (
    "std::clone::Clone::clone", "std::ops::Deref::deref", "std::ops::DerefMut::deref_mut",
    "std::convert::Into::into", "std::convert::From::from", "std::convert::AsRef::as_ref",
    "std::convert::AsMut::as_mut",
    "std::borrow::ToOwned::to_owned", "std::borrow::Borrow::borrow", "std::string::ToString::to_string",
    "std::boxed::Box::new", "std::hint::must_use", "std::string::String::as_str", "std::str::str::to_string",
    "std::str::str::as_bytes", "std::string::String::as_bytes", "std::string::String::into_bytes",
    "std::path::Path::to_path_buf", "std::path::PathBuf::as_path", "std::path::Path::new",
    "std::borrow::Cow::into_owned", "std::borrow::Cow::to_mut", "std::option::Option::as_deref",
    "std::option::Option::cloned", "std::option::Option::copied", "std::result::Result::as_deref",
    "std::result::Result::cloned", "std::result::Result::copied",
    "std::str::str::to_owned", "std::slice::[T]::to_vec", "std::slice::[T]::into_vec", "std::slice::[T]::to_owned",
    "std::vec::Vec::as_slice", "std::vec::Vec::into_boxed_slice", "std::string::String::into_boxed_str",
    "std::io::BufReader::new", "std::path::Path::as_os_str", "std::ffi::OsStr::to_os_string",
    "std::mem::ManuallyDrop::new", "std::boxed::Box::from", "anyhow::private::must_use", "std::process::Stdio::from",
    "std::pin::Pin::new", "std::rc::Rc::new", "std::string::String::from", "std::str::str::as_str",
    "std::convert::identity", "std::iter::Iterator::by_ref", "std::mem::take#",
    "std::option::Option::iter#", "std::cell::RefCell::new", "std::cell::RefCell::borrow",
    "std::cell::RefCell::borrow_mut", "std::cell::Cell::new", "std::cell::Cell::get", "std::string::String::as_mut_str",
    "std::vec::Vec::as_mut_slice", "std::slice::[T]::as_ref", "std::process::Child::stderr#",
)


@reg(*IDENT)
def ident(E, st, c):
    v = c.args[0]
    n = c.path.rsplit("::", 1)[1]
    if n in OWNING and v[0] == "R":
        l = E.load(st, v)
        if l[0] != "M":
            return E.deep(st, l)
        return l
    return v


OWNING = ("clone", "to_owned", "to_string", "to_vec", "cloned", "copied", "into_owned", "to_path_buf", "to_os_string")


def pattern(k):
    m = re.fullmatch(r"<.* as (.*)>::(\w+)", k)
    if m:
        return M.get(canon(norm(m.group(1))) + "::" + m.group(2))
    return None


# scalar conversions keep the value (widening) -------------------------------------------------
def _num_from(E, st, c):
    return E.load(st, c.args[0])


for t in ("i32", "i64", "u16", "u32", "u64", "usize", "i16", "u128", "i128"):
    M["std::convert::num::%s::from" % t] = _num_from


@reg("std::convert::TryFrom::try_from", "std::convert::TryInto::try_into")
def tryfrom(E, st, c):
    v = E.load(st, c.args[0])
    if v[0] == "i":
        return ok(v)
    return S("tryfrom", v)


# ------------------------------------------------------------------ Option / Result
def opt_split(E, st, v):
    """[(state, is_some, payload)]"""
    o = E.load(st, v)
    if o[0] == "A" and o[1] == OPT:
        return [(st, o[2] == 1, o[3][0] if o[2] == 1 else None)]
    r = []
    for s, k in E.fork_var(st, o, 2):
        r.append((s, k == 1, E.symf(s, o, 1, 0) if k == 1 else None))
    return r


def res_split(E, st, v):
    o = E.load(st, v)
    if o[0] == "A" and o[1] == RES:
        return [(st, o[2] == 0, o[3][0])]
    r = []
    for s, k in E.fork_var(st, o, 2):
        r.append((s, k == 0, E.symf(s, o, k, 0)))
    return r


def is_res(E, st, c, path):
    return "result::Result" in c.path


def split_or(E, st, c, v):
    if "result::Result" in c.path:
        return res_split(E, st, v)
    return opt_split(E, st, v)


def wrap_ok(c, v):
    return ok(v) if "result::Result" in c.path else some(v)


@reg("std::option::Option::as_ref", "std::option::Option::as_mut", "std::option::Option::as_deref_mut",
     "std::result::Result::as_ref", "std::result::Result::as_mut", "std::option::Option::as_deref")
def opt_as_ref(E, st, c):
    a = c.args[0]
    if a[0] != "R":
        return a
    # innermost place holding the option
    while True:
        v = E.rdcell(st, a[1], a[2])
        if v[0] == "R":
            a = v
        else:
            break
    isres = "result::Result" in c.path
    mut = c.path.endswith("as_mut") or c.path.endswith("deref_mut")
    if v[0] == "A":
        if not v[3]:
            return v
        if not mut:
            return v
        return ("A", v[1], v[2], (("R", a[1], a[2] + ((v[2], 0),)),))
    if not mut:
        return v
    out = []
    for s, k in E.fork_var(st, v, 2):
        s = s.copy()
        has = isres or k == 1
        new = ("A", RES if isres else OPT, k, (E.symf(s, v, k, 0),) if has else ())
        E.wr(s, ("R", a[1], a[2]), (), new)
        out.append((s, ("A", new[1], k, (("R", a[1], a[2] + ((k, 0),)),) if has else ())))
    return out


@reg("std::option::Option::unwrap", "std::option::Option::expect", "std::result::Result::unwrap",
     "std::result::Result::expect")
def unwrap(E, st, c):
    r = []
    for s, good, p in split_or(E, st, c, c.args[0]):
        if good:
            r.append((s, p))
        else:
            E.panic(s, c.fr, "unwrap", E.deep(s, c.args[1]) if len(c.args) > 1 else ("s", ""), E.deep(s, c.args[0]))
    return r


@reg("std::result::Result::unwrap_err", "std::result::Result::expect_err")
def unwrap_err(E, st, c):
    r = []
    for s, good, p in res_split(E, st, c.args[0]):
        if not good:
            r.append((s, p))
        else:
            E.panic(s, c.fr, "unwrap_err", E.deep(s, c.args[0]))
    return r


@reg("std::option::Option::unwrap_or", "std::result::Result::unwrap_or")
def unwrap_or(E, st, c):
    return [(s, p if good else c.args[1]) for s, good, p in split_or(E, st, c, c.args[0])]


def default_for(E, st, c, ty):
    ty = str(ty)
    if ty in E.BITS:
        return ("i", 0)
    if "String" in ty or "str" == ty.strip("&"):
        return ("s", "")
    if "Option<" in ty[:30]:
        return NONE
    for k in ("Vec", "HashMap", "HashSet", "BTreeMap", "BTreeSet"):
        if re.match(r"(std|alloc)::(\w+::)*%s\b" % k, ty):
            return new_cont(E, st, c, k)
    a = E.types.get(ty, {})
    if a.get("k") == "adt":
        key = E.bypath.get("<%s as std::default::Default>::default" % a["path"])
        if key:
            outs = E.call_body(st, c.fr, ("default", c.site, ty), key, [])
            if outs:
                return outs[0][1]
    return S("default", ty)


@reg("std::option::Option::unwrap_or_default", "std::result::Result::unwrap_or_default")
def unwrap_or_default(E, st, c):
    return [(s, p if good else default_for(E, s, c, c.ga[0] if c.ga else "")) for s, good, p in split_or(E, st, c, c.args[0])]


@reg("std::default::Default::default")
def default(E, st, c):
    m = re.match(r"<(.*) as std::default::Default>", c.f[1])
    return default_for(E, st, c, c.ga[0] if c.ga else (m.group(1) if m else ""))


@reg("std::option::Option::unwrap_or_else", "std::result::Result::unwrap_or_else")
def unwrap_or_else(E, st, c):
    r = []
    for s, good, p in split_or(E, st, c, c.args[0]):
        if good:
            r.append((s, p))
        else:
            r.extend(E.apply(s, c.fr, (c.site, "uoe"), c.args[1], [p] if "Result" in c.path else []))
    return r


@reg("std::option::Option::map", "std::result::Result::map", "std::option::Option::inspect#")
def omap(E, st, c):
    r = []
    for s, good, p in split_or(E, st, c, c.args[0]):
        if good:
            for s2, v in E.apply(s, c.fr, (c.site, "map"), c.args[1], [p]):
                r.append((s2, wrap_ok(c, v)))
        else:
            r.append((s, err(p) if "Result" in c.path else NONE))
    return r


@reg("std::result::Result::map_err")
def map_err(E, st, c):
    r = []
    for s, good, p in res_split(E, st, c.args[0]):
        if good:
            r.append((s, ok(p)))
        else:
            for s2, v in E.apply(s, c.fr, (c.site, "maperr"), c.args[1], [p]):
                r.append((s2, err(v)))
    return r


@reg("std::option::Option::map_or", "std::result::Result::map_or")
def map_or(E, st, c):
    r = []
    for s, good, p in split_or(E, st, c, c.args[0]):
        if good:
            r.extend(E.apply(s, c.fr, (c.site, "map"), c.args[2], [p]))
        else:
            r.append((s, c.args[1]))
    return r


@reg("std::option::Option::map_or_else", "std::result::Result::map_or_else")
def map_or_else(E, st, c):
    r = []
    for s, good, p in split_or(E, st, c, c.args[0]):
        if good:
            r.extend(E.apply(s, c.fr, (c.site, "map"), c.args[2], [p]))
        else:
            r.extend(E.apply(s, c.fr, (c.site, "else"), c.args[1], [p] if "Result" in c.path else []))
    return r


@reg("std::option::Option::and_then", "std::result::Result::and_then")
def and_then(E, st, c):
    r = []
    for s, good, p in split_or(E, st, c, c.args[0]):
        if good:
            r.extend(E.apply(s, c.fr, (c.site, "then"), c.args[1], [p]))
        else:
            r.append((s, err(p) if "Result" in c.path else NONE))
    return r


@reg("std::option::Option::or", "std::result::Result::or")
def oor(E, st, c):
    return [(s, wrap_ok(c, p) if good else c.args[1]) for s, good, p in split_or(E, st, c, c.args[0])]


@reg("std::option::Option::and", "std::result::Result::and")
def oand(E, st, c):
    return [(s, c.args[1] if good else (err(p) if "Result" in c.path else NONE)) for s, good, p in split_or(E, st, c, c.args[0])]


@reg("std::option::Option::or_else", "std::result::Result::or_else")
def or_else(E, st, c):
    r = []
    for s, good, p in split_or(E, st, c, c.args[0]):
        if good:
            r.append((s, wrap_ok(c, p)))
        else:
            r.extend(E.apply(s, c.fr, (c.site, "else"), c.args[1], [p] if "Result" in c.path else []))
    return r


@reg("std::option::Option::xor")
def oxor(E, st, c):
    r = []
    for s, g1, p in opt_split(E, st, c.args[0]):
        for s2, g2, q in opt_split(E, s, c.args[1]):
            r.append((s2, NONE if g1 == g2 else some(p if g1 else q)))
    return r


@reg("std::option::Option::zip")
def ozip(E, st, c):
    r = []
    for s, g1, p in opt_split(E, st, c.args[0]):
        if not g1:
            r.append((s, NONE))
            continue
        for s2, g2, q in opt_split(E, s, c.args[1]):
            r.append((s2, some(tup(p, q)) if g2 else NONE))
    return r


@reg("std::option::Option::filter")
def ofilter(E, st, c):
    r = []
    for s, good, p in opt_split(E, st, c.args[0]):
        if not good:
            r.append((s, NONE))
            continue
        for s2, v in E.apply(s, c.fr, (c.site, "filter"), c.args[1], [p]):
            for s3, b in E.fork_bool(s2, v):
                r.append((s3, some(p) if b else NONE))
    return r


@reg("std::option::Option::is_some", "std::result::Result::is_ok")
def is_some(E, st, c):
    return [(s, TRUE if good else FALSE) for s, good, p in split_or(E, st, c, c.args[0])]


@reg("std::option::Option::is_none", "std::result::Result::is_err")
def is_none(E, st, c):
    return [(s, FALSE if good else TRUE) for s, good, p in split_or(E, st, c, c.args[0])]


@reg("std::option::Option::is_some_and", "std::result::Result::is_ok_and")
def is_some_and(E, st, c):
    r = []
    for s, good, p in split_or(E, st, c, c.args[0]):
        if good:
            r.extend(E.apply(s, c.fr, (c.site, "and"), c.args[1], [p]))
        else:
            r.append((s, FALSE))
    return r


@reg("std::option::Option::is_none_or")
def is_none_or(E, st, c):
    r = []
    for s, good, p in split_or(E, st, c, c.args[0]):
        if good:
            r.extend(E.apply(s, c.fr, (c.site, "and"), c.args[1], [p]))
        else:
            r.append((s, TRUE))
    return r


@reg("std::option::Option::ok_or")
def ok_or(E, st, c):
    return [(s, ok(p) if good else err(c.args[1])) for s, good, p in opt_split(E, st, c.args[0])]


@reg("std::option::Option::ok_or_else")
def ok_or_else(E, st, c):
    r = []
    for s, good, p in opt_split(E, st, c.args[0]):
        if good:
            r.append((s, ok(p)))
        else:
            for s2, v in E.apply(s, c.fr, (c.site, "else"), c.args[1], []):
                r.append((s2, err(v)))
    return r


@reg("std::result::Result::ok")
def res_ok(E, st, c):
    return [(s, some(p) if good else NONE) for s, good, p in res_split(E, st, c.args[0])]


@reg("std::result::Result::err")
def res_err(E, st, c):
    return [(s, NONE if good else some(p)) for s, good, p in res_split(E, st, c.args[0])]


@reg("std::option::Option::take", "std::mem::take")
def take(E, st, c):
    a = c.args[0]
    v = E.load(st, a)
    if c.path.endswith("mem::take"):
        new = default_for(E, st, c, c.ga[0] if c.ga else "")
    else:
        new = NONE
    if v[0] == "S" and v[1] == "undef":
        return v
    st = st.copy()
    if a[0] == "R":
        E.wr(st, a, (), new)
    elif a[0] == "S":
        E.symstore(st, a, (), new)
    return [(st, v)]


@reg("std::mem::swap")
def swap(E, st, c):
    a, b = c.args
    if a[0] != "R" or b[0] != "R":
        return None
    x, y = E.load(st, a), E.load(st, b)
    st = st.copy()
    E.wr(st, a, (), y)
    E.wr(st, b, (), x)
    return [(st, UNIT)]


@reg("std::mem::replace", "std::option::Option::replace")
def replace(E, st, c):
    v = E.load(st, c.args[0])
    st = st.copy()
    new = c.args[1]
    if "Option" in c.path:
        new = some(new)
    E.wr(st, c.args[0], (), new)
    return [(st, v)]


@reg("std::option::Option::insert")
def oinsert(E, st, c):
    st = st.copy()
    E.wr(st, c.args[0], (), some(c.args[1]))
    return [(st, c.args[1])]


@reg("std::option::Option::get_or_insert_with", "std::option::Option::get_or_insert")
def oget_or_insert(E, st, c):
    a = c.args[0]
    r = []
    for s, good, p in opt_split(E, st, a):
        if good:
            r.append((s, p))
        else:
            outs = E.apply(s, c.fr, (c.site, "goi"), c.args[1], []) if c.path.endswith("with") else [(s, c.args[1])]
            for s2, v in outs:
                s2 = s2.copy()
                E.wr(s2, a, (), some(v))
                r.append((s2, v))
    return r


@reg("std::ops::Try::branch")
def branch(E, st, c):
    r = []
    isopt = "option::Option" in c.f[1]
    sp = opt_split if isopt else res_split
    v = E.load(st, c.args[0])
    if v[0] == "A" and v[1] == CF:
        return v
    for s, good, p in sp(E, st, v):
        if good:
            r.append((s, ("A", CF, 0, (p,))))
        else:
            r.append((s, ("A", CF, 1, (NONE if isopt else err(p),))))
    return r


@reg("std::ops::FromResidual::from_residual")
def from_residual(E, st, c):
    return c.args[0]


@reg("std::ops::Try::from_output")
def from_output(E, st, c):
    return some(c.args[0]) if "option::Option" in c.f[1] else ok(c.args[0])


@reg("std::bool::then", "bool::then", "core::bool::bool::then", "std::bool::bool::then")
def bthen(E, st, c):
    r = []
    for s, b in E.fork_bool(st, c.args[0]):
        if b:
            for s2, v in E.apply(s, c.fr, (c.site, "then"), c.args[1], []):
                r.append((s2, some(v)))
        else:
            r.append((s, NONE))
    return r


@reg("std::bool::bool::then_some", "bool::then_some")
def bthen_some(E, st, c):
    return [(s, some(c.args[1]) if b else NONE) for s, b in E.fork_bool(st, c.args[0])]


# ------------------------------------------------------------------ comparisons
def veq(E, st, a, b, c=None, d=0):
    """equality of two values -> [(state, bool value)]"""
    a, b = E.load(st, a), E.load(st, b)
    if a == b:
        return [(st, TRUE)]
    if a[0] == "A" and b[0] == "A" and a[1] == b[1] or a[0] == b[0] and a[0] in ("T", "V"):
        if a[0] == "A":
            if a[2] != b[2]:
                return [(st, FALSE)]
            xs, ys = a[3], b[3]
        else:
            xs, ys = a[1], b[1]
        if len(xs) != len(ys):
            return [(st, FALSE)]
        cur, out = [st], []
        for x, y in zip(xs, ys):
            nxt = []
            for s in cur:
                for s2, v in veq(E, s, x, y, c, d + 1):
                    for s3, t in E.fork_bool(s2, v):
                        if t:
                            nxt.append(s3)
                        else:
                            out.append((s3, FALSE))
            cur = nxt
        return out + [(s, TRUE) for s in cur]
    if b[0] == "A" and a[0] != "A":
        a, b = b, a
    if a[0] == "A" and b[0] in ("S", "M") and a[1] in E.adts:
        n = E.nvar(a[1])
        r = []
        if n > 1:
            for s, k in E.fork_var(st, b, n):
                if k != a[2]:
                    r.append((s, FALSE))
                else:
                    flds = ("A", a[1], k, tuple(E.symf(s, b, k, i) for i in range(len(a[3]))))
                    r.extend(veq(E, s, a, flds, c, d + 1))
            return merge_out(E, r)
        flds = ("A", a[1], 0, tuple(E.symf(st, b, 0, i) for i in range(len(a[3]))))
        return veq(E, st, a, flds, c, d + 1)
    if a[0] in ("T", "V") and b[0] in ("S", "M") and d < 6:
        if a[0] == "T":
            return veq(E, st, a, ("T", tuple(E.symf(st, b, 0, i) for i in range(len(a[1])))), c, d + 1)
    return [(st, E.eq(E.deep(st, a), E.deep(st, b)))]


def merge_out(E, outs):
    return E.merge_rets(outs)


@reg("std::cmp::PartialEq::eq", "std::cmp::impls::&A::eq", "std::str::traits::str::eq")
def peq(E, st, c):
    a, b = c.args
    r = derived_eq(E, st, c, a, b)
    return r if r is not None else veq(E, st, a, b, c)


def derived_eq(E, st, c, a, b):
    # equality of a crate type with a hand-written/derived body: inline it when both are symbolic
    ty = None
    for g in c.ga:
        t = E.types.get(g, {})
        while t.get("k") in ("ref",):
            g = t["to"]
            t = E.types.get(g, {})
        if t.get("k") == "adt":
            ty = t["path"]
            break
    if ty and ty in E.adts and E.adts[ty].get("local"):
        key = E.bypath.get("<%s as std::cmp::PartialEq>::eq" % ty)
        body = E.bodies.get(key) if key else None
        if body and not body.get("derived", True):
            return E.call_body(st, c.fr, (c.site, "eq"), key, [a, b])
    return None


@reg("std::cmp::PartialEq::ne", "std::cmp::impls::&A::ne")
def pne(E, st, c):
    r = []
    for s, v in peq(E, st, c):
        r.append((s, E.bnot(v)))
    return r


@reg("std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::ge")
def pord(E, st, c):
    if "log::Level" in c.f[1] or any("log::" in g for g in c.ga):
        return TRUE
    op = {"lt": "Lt", "gt": "Gt", "le": "Le", "ge": "Ge"}[c.path.rsplit("::", 1)[1]]
    return E.binop(st, op, E.deep(st, c.args[0]), E.deep(st, c.args[1]), c.ga[0] if c.ga else "")


@reg("std::cmp::max", "std::cmp::Ord::max", "std::cmp::min", "std::cmp::Ord::min")
def cmax(E, st, c):
    a, b = E.deep(st, c.args[0]), E.deep(st, c.args[1])
    return minmax(c.path.rsplit("::", 1)[1], a, b)


def minmax(op, a, b):
    if a[0] == "i" and b[0] == "i":
        return ("i", (max if op == "max" else min)(a[1], b[1]))
    if a == b:
        return a
    return S(op, *sorted((a, b), key=repr))


ORD = "std::cmp::Ordering"


@reg("std::cmp::Ord::cmp", "std::cmp::PartialOrd::partial_cmp")
def ocmp(E, st, c):
    a, b = E.deep(st, c.args[0]), E.deep(st, c.args[1])
    if a[0] == "i" and b[0] == "i":
        v = ("A", ORD, 0 if a[1] < b[1] else 1 if a[1] == b[1] else 2, ())
    else:
        v = S("cmp", a, b)
    return some(v) if c.path.endswith("partial_cmp") else v


@reg("std::cmp::Ordering::reverse")
def oreverse(E, st, c):
    v = E.load(st, c.args[0])
    if v[0] == "S" and v[1] == "cmp":
        return S("cmp", v[3], v[2])
    if v[0] == "A":
        return ("A", ORD, 2 - v[2], ())
    return S("reverse", v)


@reg("std::cmp::Reverse", "std::cmp::Reverse::{constructor#0}")
def rev_(E, st, c):
    return ("A", "std::cmp::Reverse", 0, (c.args[0],))


@reg("std::mem::discriminant")
def mem_disc(E, st, c):
    v = E.load(st, c.args[0])
    ty = c.ga[0] if c.ga else None
    path = E.adt_of(ty) if ty else None
    if v[0] == "A":
        return ("i", v[2])
    return S("disc", v, path)


@reg("std::intrinsics::discriminant_value")
def disc_value(E, st, c):
    v = E.load(st, c.args[0])
    return E.discr(v, c.ga[0] if c.ga else "")


# ------------------------------------------------------------------ strings
def sval(E, st, v):
    v = E.load(st, v)
    return v


def strpred(E, st, op, x, pat):
    x, pat = E.deep(st, x), E.deep(st, pat)
    if pat[0] == "i":
        pat = ("s", chr(pat[1]))
    if x[0] == "s" and pat[0] == "s":
        f = {"pre": x[1].startswith, "suf": x[1].endswith, "cont": lambda p: p in x[1]}[op]
        return ("i", int(f(pat[1])))
    if pat[0] == "s":
        return S(op, x, pat[1])
    return S(op + "v", x, pat)


@reg("std::str::str::starts_with", "std::slice::[T]::starts_with")
def starts_with(E, st, c):
    h = E.str_hook(st, c, "pre") if E.str_hook else None
    return h if h is not None else strpred(E, st, "pre", c.args[0], c.args[1])


@reg("std::str::str::ends_with")
def ends_with(E, st, c):
    return strpred(E, st, "suf", c.args[0], c.args[1])


@reg("std::str::str::contains")
def scontains(E, st, c):
    h = E.str_hook(st, c, "cont") if E.str_hook else None
    return h if h is not None else strpred(E, st, "cont", c.args[0], c.args[1])


@reg("std::str::str::strip_prefix", "std::str::str::strip_suffix")
def strip(E, st, c):
    pre = c.path.endswith("prefix")
    x, p = E.deep(st, c.args[0]), E.deep(st, c.args[1])
    if p[0] == "i":
        p = ("s", chr(p[1]))
    b = strpred(E, st, "pre" if pre else "suf", x, p)
    r = []
    for s, t in E.fork_bool(st, b):
        if not t:
            r.append((s, NONE))
        elif p[0] == "s":
            n = len(p[1].encode())
            r.append((s, some(substr(E, s, x, ("i", n), None) if pre else substr(E, s, x, ("i", 0), E.sum([E.length(s, x), ("i", -n)])))))
        else:
            r.append((s, some(substr(E, s, x, E.length(s, p), None) if pre else S("stripsuf", x, p))))
    return r


def substr(E, st, x, lo, hi):
    if x[0] in ("s", "by"):
        b = x[1].encode() if x[0] == "s" else x[1]
        if lo[0] == "i" and (hi is None or hi[0] == "i"):
            b2 = b[lo[1]:(hi[1] if hi is not None else None)]
            return ("s", b2.decode()) if x[0] == "s" else ("by", b2)
    if x[0] == "V" and lo[0] == "i" and (hi is None or hi[0] == "i"):
        return ("V", x[1][lo[1]:(hi[1] if hi is not None else None)])
    if lo == ("i", 0) and hi is None:
        return x
    if x[0] == "S" and x[1] == "sub" and hi is None and x[4] is None:
        return S("sub", x[2], E.sum([x[3], lo]), None)
    return S("sub", x, lo, hi)


def rng(E, st, v):
    """range value -> (lo, hi|None)"""
    v = E.load(st, v)
    if v[0] == "A":
        n = v[1].rsplit("::", 1)[1]
        f = [E.deep(st, x) for x in v[3]]
        if n == "Range":
            return f[0], f[1]
        if n == "RangeFrom":
            return f[0], None
        if n == "RangeTo":
            return ("i", 0), f[0]
        if n == "RangeToInclusive":
            return ("i", 0), E.sum([f[0], ("i", 1)])
        if n == "RangeInclusive":
            return f[0], E.sum([f[1], ("i", 1)])
        if n == "RangeFull":
            return ("i", 0), None
        if n == "#range":
            return f[0], f[1]
    return None


@reg("std::ops::RangeInclusive::new", "std::ops::RangeInclusive::<Idx>::new")
def ri_new(E, st, c):
    return ("A", "std::ops::RangeInclusive", 0, (c.args[0], c.args[1], FALSE))


@reg("std::ops::Range::contains", "std::ops::RangeFrom::contains", "std::ops::RangeInclusive::contains",
     "std::ops::RangeTo::contains", "std::ops::RangeBounds::contains")
def rcontains(E, st, c):
    r = rng(E, st, c.args[0])
    if r is None:
        return None
    x = E.deep(st, c.args[1])
    out = []
    ge = E.binop(st, "Ge", x, r[0], c.ga[0] if c.ga else "")
    for s, b in E.fork_bool(st, ge):
        if not b:
            out.append((s, FALSE))
        elif r[1] is None:
            out.append((s, TRUE))
        else:
            for s2, b2 in E.fork_bool(s, E.binop(s, "Lt", x, r[1], c.ga[0] if c.ga else "")):
                out.append((s2, TRUE if b2 else FALSE))
    return merge_out(E, out)


@reg("std::ops::Index::index", "std::ops::IndexMut::index_mut", "std::str::traits::str::index",
     "std::slice::index::[T]::index", "std::slice::[T]::get_unchecked")
def index(E, st, c):
    base, i = c.args
    iv = E.load(st, i)
    r = rng(E, st, i)
    b = E.load(st, base)
    if r is not None:
        E.ev(st, c.fr, "slice", E.deep(st, b), r[0], r[1] if r[1] is not None else UNIT)
        return substr(E, st, E.deep(st, b), r[0], r[1])
    iv = E.deep(st, iv)
    return mindex(E, st, c, base, b, iv)


def mindex(E, st, c, base, b, iv, quiet=False):
    ty = c.f[1] + " ".join(c.ga[:1])
    if b[0] == "V" and iv[0] == "i" and 0 <= iv[1] < len(b[1]):
        if base[0] == "R":
            while True:
                v = E.rdcell(st, base[1], base[2])
                if v[0] == "R":
                    base = v
                else:
                    break
            return ("R", base[1], base[2] + (("ix", iv),))
        return b[1][iv[1]]
    if re.search(r"(HashMap|BTreeMap|IndexMap)", ty):
        # map index panics when the key is absent
        r = []
        for s, k in E.fork_var(st, getterm(E, st, b, iv), 2):
            if k:
                r.append((s, place(E, s, S("at", b, iv))))
            else:
                E.panic(s, c.fr, "missing-key", b, iv)
        return r
    if "Graph" in ty:
        return place(E, st, S("at", b, iv))
    if E.index_hook:
        x = E.index_hook(st, b, ("i", iv[1]) if iv[0] == "i" else iv)
        if x is not None:
            return x
    return melem(E, st, b, iv)


def place(E, st, t):
    """the place designated by a term (kept symbolic so that it can be written through)"""
    return t


def as_val(E, st, t):
    return st.sh.get(t, t)


def melem(E, st, b, iv):
    if b[0] == "M" and b in E.colls:
        outs = from_yields(E, st, b, iv)
        if outs is not None:
            return outs
    if b[0] in ("V", "by"):
        return E.vget(st, b, ("ix", iv))
    return S("elem", b, iv)


@reg("std::slice::[T]::get", "std::vec::Vec::get", "std::str::str::get", "std::slice::[T]::get_mut")
def sget(E, st, c):
    b = E.load(st, c.args[0])
    r = rng(E, st, c.args[1])
    if r is not None:
        lo, hi = r
        t = S("inrange", E.deep(st, b), lo, hi if hi is not None else UNIT)
        if b[0] in ("s", "by", "V") and lo[0] == "i" and (hi is None or hi[0] == "i"):
            n = E.length(st, b)[1]
            good = 0 <= lo[1] <= (hi[1] if hi is not None else n) <= n if hi is not None else 0 <= lo[1] <= n
            return some(substr(E, st, b, lo, hi)) if good else NONE
        return [(s, some(substr(E, s, E.deep(s, b), lo, hi)) if g else NONE) for s, g in E.fork_bool(st, t)]
    i = E.deep(st, c.args[1])
    n = E.length(st, b)
    cond = E.binop(st, "Lt", i, n, "usize")
    if b[0] == "S" or b[0] == "M":
        cond = S("more", b, i)
    out = []
    for s, g in E.fork_bool(st, cond):
        if g:
            v = melem(E, s, b, i)
            if isinstance(v, tuple):
                out.append((s, some(v)))
            else:
                out.extend((s2, some(x)) for s2, x in v)
        else:
            out.append((s, NONE))
    return out


@reg("std::slice::[T]::first", "std::slice::[T]::last", "std::vec::Vec::first", "std::vec::Vec::last",
     "std::slice::[T]::first_mut", "std::slice::[T]::last_mut")
def first(E, st, c):
    b = E.load(st, c.args[0])
    i = ("i", 0) if "first" in c.path.rsplit("::", 1)[1] else None
    if b[0] == "V":
        if not b[1]:
            return NONE
        return some(b[1][0 if i else -1])
    if i is None:
        i = E.sum([E.length(st, b), ("i", -1)])
    out = []
    for s, g in E.fork_bool(st, S("more", b, ("i", 0))):
        if not g:
            out.append((s, NONE))
            continue
        v = melem(E, s, b, i)
        out.extend([(s, some(v))] if isinstance(v, tuple) else [(s2, some(x)) for s2, x in v])
    return out


@reg("std::slice::[T]::split_first", "std::slice::[T]::split_last")
def split_first(E, st, c):
    b = E.load(st, c.args[0])
    fst = c.path.endswith("first")
    if b[0] == "V":
        if not b[1]:
            return NONE
        return some(tup(b[1][0], ("V", b[1][1:])) if fst else tup(b[1][-1], ("V", b[1][:-1])))
    last = E.sum([E.length(st, b), ("i", -1)])
    i = ("i", 0) if fst else last
    out = []
    for s, g in E.fork_bool(st, S("more", b, ("i", 0))):
        if not g:
            out.append((s, NONE))
            continue
        rest = substr(E, s, b, ("i", 1), None) if fst else substr(E, s, b, ("i", 0), last)
        v = melem(E, s, b, i)
        out.extend([(s, some(tup(v, rest)))] if isinstance(v, tuple) else [(s2, some(tup(x, rest))) for s2, x in v])
    return out


@reg("std::str::str::len", "std::string::String::len", "std::slice::[T]::len", "std::vec::Vec::len",
     "std::collections::HashMap::len", "std::collections::HashSet::len", "std::collections::BTreeMap::len",
     "std::collections::BTreeSet::len", "std::iter::ExactSizeIterator::len")
def slen(E, st, c):
    v = E.load(st, c.args[0])
    if v[0] == "M":
        return S("len", v, st.ver.get(v, 0))
    return E.length(st, E.deep(st, v))


@reg("std::str::str::is_empty", "std::string::String::is_empty", "std::slice::[T]::is_empty", "std::vec::Vec::is_empty",
     "std::collections::HashMap::is_empty", "std::collections::HashSet::is_empty", "std::collections::BTreeMap::is_empty")
def is_empty(E, st, c):
    v = E.load(st, c.args[0])
    if v[0] == "s":
        return TRUE if v[1] == "" else FALSE
    if v[0] in ("V", "by"):
        return TRUE if not v[1] else FALSE
    if "str" in c.path.lower():
        return E.eq(E.deep(st, v), ("s", ""))
    return E.bnot(S("more", v, ("i", 0))) if st.ver.get(v) is None else E.bnot(S("more", v, ("i", 0), st.ver.get(v)))


@reg("std::str::str::splitn", "std::str::str::rsplitn", "std::str::str::split", "std::str::str::rsplit",
     "std::str::str::lines", "std::str::str::chars", "std::str::str::split_inclusive", "std::str::str::bytes",
     "std::str::str::split_whitespace", "std::str::str::char_indices", "std::str::str::split_terminator",
     "std::str::str::matches")
def ssplit(E, st, c):
    a = [E.deep(st, x) for x in c.args]
    op = c.path.rsplit("::", 1)[1]
    if a[0][0] == "s" and all(x[0] in ("s", "i") for x in a[1:]):
        s = a[0][1]
        p = None
        if len(a) > 1:
            p = a[-1][1] if a[-1][0] == "s" else chr(a[-1][1])
        l = None
        if op == "chars":
            return mkit(("V", tuple(("i", ord(ch)) for ch in s)))
        if op == "bytes":
            return mkit(("V", tuple(("i", ch) for ch in s.encode())))
        if op == "split":
            l = s.split(p)
        elif op == "rsplit":
            l = s.split(p)[::-1]
        elif op == "splitn":
            l = s.split(p, a[1][1] - 1)
        elif op == "rsplitn":
            l = s.rsplit(p, a[1][1] - 1)[::-1]
        elif op == "lines":
            l = s.splitlines()
        if l is not None:
            return mkit(("V", tuple(("s", x) for x in l)))
    if op == "bytes":
        return mkit(a[0])
    if len(a) > 1 and a[-1][0] == "i" and a[-1][1] >= 0:
        a[-1] = ("s", chr(a[-1][1]))
    return mkit(S(op, *a))


@reg("std::str::str::split_once", "std::str::str::rsplit_once")
def split_once(E, st, c):
    x, p = E.deep(st, c.args[0]), E.deep(st, c.args[1])
    if p[0] == "i":
        p = ("s", chr(p[1]))
    if x[0] == "s" and p[0] == "s":
        if p[1] not in x[1]:
            return NONE
        l = x[1].split(p[1], 1) if c.path.endswith("::split_once") else x[1].rsplit(p[1], 1)
        return some(tup(("s", l[0]), ("s", l[1])))
    rs = c.path.endswith("rsplit_once")
    src = S("rsplitn" if rs else "splitn", x, ("i", 2), p)
    r = []
    for s, g in E.fork_bool(st, S("more", src, ("i", 1))):
        a, b = S("elem", src, ("i", 0)), S("elem", src, ("i", 1))
        r.append((s, some(tup(b, a) if rs else tup(a, b)) if g else NONE))
    return r


@reg("std::str::str::split_at", "std::slice::[T]::split_at")
def split_at(E, st, c):
    x, n = E.load(st, c.args[0]), E.deep(st, c.args[1])
    return tup(substr(E, st, x, ("i", 0), n), substr(E, st, x, n, None))


@reg("std::str::str::is_char_boundary")
def char_boundary(E, st, c):
    x, n = E.deep(st, c.args[0]), E.deep(st, c.args[1])
    return S("inrange", x, n, UNIT)


@reg("std::str::str::replace")
def sreplace(E, st, c):
    a = [E.deep(st, x) for x in c.args]
    if all(x[0] in ("s", "i") for x in a):
        t = [x[1] if x[0] == "s" else chr(x[1]) for x in a]
        return ("s", t[0].replace(t[1], t[2]))
    return S("replace", *a)


@reg("std::str::str::trim", "std::str::str::trim_start", "std::str::str::trim_end")
def strim(E, st, c):
    v = E.deep(st, c.args[0])
    op = c.path.rsplit("::", 1)[1]
    if v[0] == "s":
        return ("s", {"trim": v[1].strip, "trim_start": v[1].lstrip, "trim_end": v[1].rstrip}[op]())
    return S(op, v)


@reg("std::str::from_utf8", "std::str::converts::from_utf8", "std::string::String::from_utf8", "std::string::String::from_utf8_lossy")
def from_utf8(E, st, c):
    v = E.deep(st, c.args[0])
    if v[0] == "s":
        return ok(v)
    if c.path.endswith("lossy"):
        return S("utf8lossy", v)
    return S("utf8", v)


@reg("std::num::u64::from_str_radix", "std::num::u8::from_str_radix", "std::num::u16::from_str_radix", "std::num::u32::from_str_radix")
def from_str_radix(E, st, c):
    s, r = E.deep(st, c.args[0]), E.deep(st, c.args[1])
    if s[0] == "s" and r[0] == "i":
        try:
            n = int(s[1], r[1])
            ty = c.path.split("::")[2]
            if "_" in s[1] or n < 0 or n >= 1 << E.BITS[ty]:
                raise ValueError
            return ok(("i", n))
        except ValueError:
            return err(S("parseerr"))
    return S("radix", c.path.split("::")[2], s, r)


@reg("std::str::str::parse")
def sparse(E, st, c):
    s = E.deep(st, c.args[0])
    ty = c.ga[0] if c.ga else "?"
    if ty in ("u8", "u16", "u32", "u64", "usize"):
        if s[0] == "s":
            if re.fullmatch(r"\+?[0-9]+", s[1]) and int(s[1]) < 1 << E.BITS[ty]:
                return ok(("i", int(s[1])))
            return err(S("parseerr"))
        return S("radix", ty, s, ("i", 10))
    return S("parse", ty, s)


@reg("std::string::String::push_str", "std::string::String::push", "std::string::String::insert_str", "std::ops::AddAssign::add_assign")
def push_str(E, st, c):
    a = c.args[0]
    v = E.deep(st, a)
    x = E.deep(st, c.args[1])
    if c.path.endswith("insert_str"):
        return None
    if c.path.endswith("add_assign") and "String" not in c.f[1]:
        return None
    if x[0] == "i":
        x = ("s", chr(x[1]))
    st = st.copy()
    E.wr(st, a, (), concat(E, [v, x]))
    return [(st, UNIT)]


@reg("std::string::String::new")
def string_new(E, st, c):
    return ("s", "")


@reg("std::string::String::with_capacity")
def string_cap(E, st, c):
    return ("s", "")


@reg("std::ops::Add::add")
def str_add(E, st, c):
    if "String" in c.f[1] or "String" in " ".join(c.ga):
        return concat(E, [E.deep(st, x) for x in c.args])
    return None


@reg("std::slice::[T]::concat", "std::slice::[T]::join")
def sconcat(E, st, c):
    v = E.deep(st, c.args[0])
    sep = E.deep(st, c.args[1]) if len(c.args) > 1 else ("s", "")
    if v[0] == "V":
        l = []
        for i, x in enumerate(v[1]):
            if i:
                l.append(sep)
            l.append(x)
        return concat(E, l)
    return S("join", v, sep)


def concat(E, parts):
    """normal form of a string concatenation: ('S','cat',piece...) with literals merged"""
    out = []
    for p in parts:
        for x in (p[2:] if p[0] == "S" and p[1] == "cat" else (p,)):
            if x[0] == "s":
                if not x[1]:
                    continue
                if out and out[-1][0] == "s":
                    out[-1] = ("s", out[-1][1] + x[1])
                    continue
            out.append(x)
    if not out:
        return ("s", "")
    if len(out) == 1 and (out[0][0] == "s" or out[0][0] == "S" and out[0][1] in ("sub", "elem", "f", "at", "disp", "demangle")):
        return out[0]
    return S("cat", *out)


# char predicates
@reg("std::char::methods::char::is_alphabetic", "std::char::methods::char::is_alphanumeric",
     "std::char::methods::char::is_ascii_alphabetic", "std::char::methods::char::is_ascii_alphanumeric",
     "std::char::methods::char::is_ascii_digit", "std::char::methods::char::is_ascii_hexdigit",
     "std::char::methods::char::is_digit", "std::char::methods::char::is_numeric", "std::char::methods::char::is_whitespace")
def char_pred(E, st, c):
    v = E.deep(st, c.args[0])
    op = c.path.rsplit("::", 1)[1]
    if v[0] == "i":
        ch = chr(v[1])
        d = {"is_alphabetic": ch.isalpha(), "is_alphanumeric": ch.isalnum(), "is_ascii_digit": ch in "0123456789",
             "is_ascii_alphabetic": ch.isascii() and ch.isalpha(), "is_ascii_alphanumeric": ch.isascii() and ch.isalnum(),
             "is_numeric": ch.isnumeric(), "is_whitespace": ch.isspace(),
             "is_ascii_hexdigit": ch in "0123456789abcdefABCDEF"}
        if op == "is_digit":
            r = E.deep(st, c.args[1])[1]
            return ("i", int(ch in "0123456789abcdefghijklmnopqrstuvwxyz"[:r] or ch in "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[:r]))
        return ("i", int(d[op]))
    return S("char", op, v, *[E.deep(st, x) for x in c.args[1:]])


# ------------------------------------------------------------------ integers
@reg("std::num::usize::checked_sub", "std::num::u32::checked_sub", "std::num::u64::checked_sub", "std::num::u16::checked_sub")
def checked_sub(E, st, c):
    a, b = E.deep(st, c.args[0]), E.deep(st, c.args[1])
    ty = c.path.split("::")[2]
    return [(s, NONE if lt else some(E.binop(s, "Sub", a, b, ty))) for s, lt in E.fork_bool(st, E.binop(st, "Lt", a, b, ty))]


for _t in ("u8", "u16", "u32", "u64", "usize", "i32", "i64", "u128", "isize", "i16", "i8"):
    def _mk(t):
        def shl(E, st, c):
            a, b = E.deep(st, c.args[0]), E.deep(st, c.args[1])
            return E.binop(st, "Shl" if c.path.endswith("shl") else "Shr", a, b, t)

        def wadd(E, st, c):
            a, b = E.deep(st, c.args[0]), E.deep(st, c.args[1])
            return E.binop(st, {"add": "Add", "sub": "Sub", "mul": "Mul"}[c.path[-3:]], a, b, t)

        def cones(E, st, c):
            v = E.deep(st, c.args[0])
            if v[0] == "i":
                return ("i", bin(v[1] & ((1 << E.BITS[t]) - 1)).count("1"))
            for h in E.binop_hooks:
                x = h(st, "CountOnes", v, None, t)
                if x is not None:
                    return x
            return S("count_ones", v)

        def rot(E, st, c):
            v, n = E.deep(st, c.args[0]), E.deep(st, c.args[1])
            w = E.BITS[t]
            op = c.path.rsplit("_", 1)[1]
            if v[0] == "i" and n[0] == "i":
                k = n[1] % w
                if op == "left":
                    k = (w - k) % w
                x = v[1] & ((1 << w) - 1)
                return ("i", E.wrap((x >> k) | (x << (w - k)), t))
            for h in E.binop_hooks:
                x = h(st, "Rotr" if op == "right" else "Rotl", v, n, t)
                if x is not None:
                    return x
            return S("rot" + op, v, n)

        def satsub(E, st, c):
            a, b = E.deep(st, c.args[0]), E.deep(st, c.args[1])
            if a[0] == "i" and b[0] == "i":
                n = a[1] - b[1]
                lo = -(1 << (E.BITS[t] - 1)) if t[0] == "i" else 0
                return ("i", max(lo, n))
            return S("satsub", a, b)

        def from_bytes(E, st, c):
            v = E.deep(st, c.args[0])
            if v[0] != "V" or len(v[1]) != E.BITS[t] // 8:
                return None
            bs = v[1] if c.path.endswith("le_bytes") else v[1][::-1]
            u = "u" + t[1:]
            acc = ("i", 0)
            for i, x in enumerate(bs):
                acc = E.binop(st, "BitOr", acc, E.binop(st, "Shl", E.int_cast(st, x, u, "u8"), ("i", 8 * i), u), u)
            return E.int_cast(st, acc, t, u) if t[0] == "i" else acc

        def wneg(E, st, c):
            return E.binop(st, "Sub", ("i", 0), E.deep(st, c.args[0]), t)

        def cadd(E, st, c):
            a, b = E.deep(st, c.args[0]), E.deep(st, c.args[1])
            v = E.binop(st, {"add": "Add", "sub": "Sub", "mul": "Mul"}[c.path[-3:]], a, b, t)
            if a[0] == "i" and b[0] == "i":
                return some(v)
            o = S("overflow", c.path[-3:], t, a, b)
            return [(s, NONE if x else some(v)) for s, x in E.fork_bool(st, o)]
        for nm, f in (("wrapping_shl", shl), ("wrapping_shr", shl), ("wrapping_add", wadd), ("wrapping_sub", wadd),
                      ("count_ones", cones), ("rotate_right", rot), ("rotate_left", rot), ("wrapping_neg", wneg),
                      ("saturating_sub", satsub), ("from_le_bytes", from_bytes), ("from_be_bytes", from_bytes),
                      ("checked_add", cadd), ("wrapping_mul", wadd), ("checked_mul", cadd)):
            M.setdefault("std::num::%s::%s" % (t, nm), f)
    _mk(_t)


@reg("std::ops::BitAnd::bitand", "std::ops::BitOr::bitor", "std::ops::BitXor::bitxor", "std::ops::Shl::shl",
     "std::ops::Shr::shr", "std::ops::Sub::sub", "std::ops::Mul::mul", "std::ops::Div::div", "std::ops::Rem::rem")
def bitops(E, st, c):
    a, b = E.deep(st, c.args[0]), E.deep(st, c.args[1])
    op = {"bitand": "BitAnd", "bitor": "BitOr", "bitxor": "BitXor", "shl": "Shl", "shr": "Shr", "sub": "Sub", "mul": "Mul",
          "div": "Div", "rem": "Rem"}[c.path.rsplit("::", 1)[1]]
    return E.binop(st, op, a, b, c.ga[0].lstrip("&") if c.ga else "")


@reg("std::ops::Not::not")
def notop(E, st, c):
    v = E.load(st, c.args[0])
    if (c.ga and "bool" in c.ga[0]) or "bool" in c.f[1]:
        return E.bnot(v)
    return None


# ------------------------------------------------------------------ containers
def new_cont(E, st, c, kind, tag=""):
    m = ("M", kind, E.ctx(c.fr.id, ("new", c.site, tag), c.fr.key))
    E.colls[m] = ()
    E.alloc_loops[m] = tuple(E.loopstack)
    return m


def _new(E, st, c):
    m = re.search(r"(Vec|HashMap|HashSet|BTreeMap|BTreeSet|VecDeque|DiGraph|Graph|String|Archive|File|FixedBitSet)\b", c.path)
    kind = m.group(1) if m else c.path
    v = new_cont(E, st, c, kind)
    st = st.copy()
    st.ver.pop(v, None)
    for k in [k for k in st.sh if contains(k, lambda x: x == v)]:
        del st.sh[k]
    return [(st, v)]


for _k in ("std::vec::Vec", "std::collections::HashMap", "std::collections::HashSet", "std::collections::BTreeMap",
           "std::collections::BTreeSet", "petgraph::Graph", "std::collections::VecDeque", "petgraph::graph::Graph",
           "std::collections::hash::map::HashMap", "std::collections::hash::set::HashSet"):
    for _n in ("new", "with_capacity"):
        M[_k + "::" + _n] = _new


def base_of(E, st, a):
    return E.load(st, a)


def bump(E, st, m, tagv):
    st = st.copy()
    st.ver[m] = tagv
    return st


def sitetag(E, c, tag=""):
    return ("site", E.ctx(c.fr.id, ("site", c.site, tag), c.fr.key))


def getterm(E, st, m, k):
    return S("get", m, k, st.ver.get(m, 0))


@reg("std::collections::HashMap::get", "std::collections::BTreeMap::get", "std::collections::HashMap::get_mut",
     "std::collections::BTreeMap::get_mut", "std::collections::HashSet::get")
def map_get(E, st, c):
    m, k = base_of(E, st, c.args[0]), E.deep(st, c.args[1])
    return getterm(E, st, m, k)


@reg("std::collections::HashMap::contains_key", "std::collections::BTreeMap::contains_key")
def contains_key(E, st, c):
    m, k = base_of(E, st, c.args[0]), E.deep(st, c.args[1])
    return [(s, TRUE if v else FALSE) for s, v in E.fork_var(st, getterm(E, st, m, k), 2)]


@reg("std::collections::HashMap::insert", "std::collections::BTreeMap::insert")
def map_insert(E, st, c):
    m, k, v = base_of(E, st, c.args[0]), E.deep(st, c.args[1]), E.deep(st, c.args[2])
    E.ev(st, c.fr, "insert", m, k, v)
    record(E, st, m, tup(k, v))
    old = getterm(E, st, m, k)
    st = bump(E, st, m, sitetag(E, c))
    st.sh[S("at", m, k)] = v
    return [(st, S("old", old))]


@reg("std::collections::HashMap::remove", "std::collections::BTreeMap::remove", "std::collections::HashSet::remove")
def map_remove(E, st, c):
    m, k = base_of(E, st, c.args[0]), E.deep(st, c.args[1])
    E.ev(st, c.fr, "remove", m, k)
    if "Set" in c.path:
        t = S("has", m, k, st.ver.get(m, 0))
        return [(bump(E, st, m, sitetag(E, c)), t)]
    t = getterm(E, st, m, k)
    return [(bump(E, st, m, sitetag(E, c)), t)]


@reg("std::collections::HashMap::clear", "std::collections::BTreeMap::clear", "std::vec::Vec::clear",
     "std::collections::HashSet::clear", "std::string::String::clear")
def clear(E, st, c):
    if "String" in c.path:
        st = st.copy()
        E.wr(st, c.args[0], (), ("s", ""))
        return [(st, UNIT)]
    m = base_of(E, st, c.args[0])
    E.ev(st, c.fr, "clear", m)
    return [(bump(E, st, m, sitetag(E, c)), UNIT)]


@reg("std::collections::HashSet::contains", "std::collections::BTreeSet::contains")
def set_contains(E, st, c):
    m, k = base_of(E, st, c.args[0]), E.deep(st, c.args[1])
    return S("has", m, k, st.ver.get(m, 0))


@reg("std::collections::HashSet::insert", "std::collections::BTreeSet::insert")
def set_insert(E, st, c):
    m, k = base_of(E, st, c.args[0]), E.deep(st, c.args[1])
    t = S("has", m, k, st.ver.get(m, 0))
    E.ev(st, c.fr, "sins", m, k)
    record(E, st, m, k)
    r = []
    used = c.t is None or True
    for s, had in E.fork_bool(st, t):
        s = bump(E, s, m, sitetag(E, c))
        s = E.restrict(s, ("b", S("has", m, k, s.ver[m])), ("in", frozenset([1]))) or s
        r.append((s, FALSE if had else TRUE))
    return r


@reg("std::collections::HashMap::entry", "std::collections::BTreeMap::entry")
def entry(E, st, c):
    m, k = base_of(E, st, c.args[0]), E.deep(st, c.args[1])
    return ("A", "#entry", 0, (m, k))


def _entry(E, st, c, dflt):
    e = E.load(st, c.args[0])
    if not (e[0] == "A" and e[1] == "#entry"):
        return None
    m, k = e[3]
    E.ev(st, c.fr, "entry", m, k, dflt)
    record(E, st, m, tup(k, S("at", m, k)))
    r = []
    t = getterm(E, st, m, k)
    for s, had in E.fork_var(st, t, 2):
        s = bump(E, s, m, sitetag(E, c))
        s2 = E.restrict(s, ("var", getterm(E, s, m, k), 2), ("in", frozenset([1]))) or s
        r.append((s2, S("at", m, k)))
    return merge_out(E, r)


@reg("std::collections::hash_map::Entry::or_default", "std::collections::btree_map::Entry::or_default")
def or_default(E, st, c):
    return _entry(E, st, c, S("default"))


@reg("std::collections::hash_map::Entry::or_insert", "std::collections::btree_map::Entry::or_insert")
def or_insert(E, st, c):
    return _entry(E, st, c, E.deep(st, c.args[1]))


@reg("std::collections::hash_map::Entry::or_insert_with", "std::collections::btree_map::Entry::or_insert_with")
def or_insert_with(E, st, c):
    e = E.load(st, c.args[0])
    if not (e[0] == "A" and e[1] == "#entry"):
        return None
    m, k = e[3]
    r = []
    for s, had in E.fork_var(st, getterm(E, st, m, k), 2):
        if had:
            r.append((s, S("at", m, k)))
            continue
        for s2, v in E.apply(s, c.fr, (c.site, "oiw"), c.args[1], []):
            r.extend(_entry(E, s2, c, E.deep(s2, v)))
    return r


@reg("std::collections::hash_map::Entry::and_modify", "std::collections::btree_map::Entry::and_modify")
def and_modify(E, st, c):
    e = E.load(st, c.args[0])
    if not (e[0] == "A" and e[1] == "#entry"):
        return None
    m, k = e[3]
    r = []
    for s, had in E.fork_var(st, getterm(E, st, m, k), 2):
        if had:
            for s2, _ in E.apply(s, c.fr, (c.site, "am"), c.args[1], [S("at", m, k)]):
                r.append((s2, e))
        else:
            r.append((s, e))
    return r


@reg("std::vec::Vec::push", "std::collections::VecDeque::push_back")
def vec_push(E, st, c):
    m, v = base_of(E, st, c.args[0]), E.deep(st, c.args[1])
    if m[0] == "V":
        st = st.copy()
        E.wr(st, c.args[0], (), ("V", m[1] + (v,)))
        return [(st, UNIT)]
    E.ev(st, c.fr, "push", m, v)
    record(E, st, m, v)
    return [(bump(E, st, m, sitetag(E, c)), UNIT)]


@reg("std::vec::Vec::pop", "std::vec::Vec::remove", "std::vec::Vec::insert", "std::vec::Vec::truncate", "std::vec::Vec::retain",
     "std::vec::Vec::dedup", "std::vec::Vec::append", "std::vec::Vec::drain", "std::vec::Vec::swap_remove",
     "std::collections::HashSet::retain", "std::collections::HashMap::retain", "std::collections::BTreeMap::retain",
     "std::vec::Vec::reverse", "std::slice::[T]::reverse", "std::vec::Vec::dedup_by_key", "std::vec::Vec::resize",
     "petgraph::Graph::remove_node", "petgraph::Graph::remove_edge", "petgraph::Graph::retain_edges",
     "petgraph::Graph::retain_nodes", "petgraph::Graph::clear_edges", "petgraph::Graph::reverse", "petgraph::Graph::clear",
     "petgraph::Graph::update_edge", "std::slice::[T]::swap", "std::slice::[T]::rotate_left", "std::slice::[T]::fill")
def vec_other(E, st, c):
    m = base_of(E, st, c.args[0])
    a = tuple(E.deep(st, x) for x in c.args[1:])
    E.ev(st, c.fr, "mutate", c.path.rsplit("::", 1)[1], m, *a)
    if m[0] == "M":
        E.mutated.add(m)
    st = bump(E, st, m, sitetag(E, c))
    return [(st, S("call", c.path, m, *a))]


@reg("std::slice::[T]::sort_by", "std::slice::[T]::sort_by_key", "std::slice::[T]::sort", "std::slice::[T]::sort_unstable",
     "std::slice::[T]::sort_unstable_by", "std::slice::[T]::sort_unstable_by_key", "std::slice::[T]::sort_by_cached_key")
def sort(E, st, c):
    m = base_of(E, st, c.args[0])
    ords = []
    if len(c.args) > 1:
        a, b = S("sa"), S("sb")
        args = [[a, b]] if c.path.endswith("_by") else [[a], [b]]
        E.silent += 1
        try:
            for ar in args:
                for s, v in E.apply(st, c.fr, (c.site, "cmp", len(ords)), c.args[1], ar):
                    ords.append((s.pc, E.deep(s, v)))
        finally:
            E.silent -= 1
    E.ev(st, c.fr, "sort", m, ("s", c.path.rsplit("::", 1)[1]), tuple(ords))
    if m[0] == "V":
        st = st.copy()
        E.wr(st, c.args[0], (), S("sorted", m))
        return [(st, UNIT)]
    return [(bump(E, st, m, sitetag(E, c)), UNIT)]


@reg("std::slice::[T]::binary_search_by", "std::slice::[T]::binary_search_by_key", "std::slice::[T]::binary_search")
def bsearch(E, st, c):
    m = E.deep(st, c.args[0])
    if c.path.endswith("search"):
        key = ("T", (E.deep(st, c.args[1]),))
    elif c.path.endswith("key"):
        x = S("x")
        outs = E.apply(st, c.fr, (c.site, "key"), c.args[2], [x])
        key = S("cmp", E.deep(outs[0][0], outs[0][1]), E.deep(st, c.args[1])) if len(outs) == 1 else S("?", sitetag(E, c))
    else:
        x = S("x")
        outs = E.apply(st, c.fr, (c.site, "cmp"), c.args[1], [x])
        key = E.deep(outs[0][0], outs[0][1]) if len(outs) == 1 else S("?", sitetag(E, c))
    return S("bsearch", m, key)


@reg("std::slice::[T]::contains", "std::vec::Vec::contains", "std::collections::VecDeque::contains")
def sl_contains(E, st, c):
    m, x = E.deep(st, c.args[0]), E.deep(st, c.args[1])
    if m[0] == "V":
        cur, out = [st], []
        for y in m[1]:
            nxt = []
            for s in cur:
                for s2, v in veq(E, s, y, x, c):
                    for s3, b in E.fork_bool(s2, v):
                        if b:
                            out.append((s3, TRUE))
                        else:
                            nxt.append(s3)
            cur = nxt
        return merge_out(E, out + [(s, FALSE) for s in cur])
    if m[0] == "by":
        if x[0] == "i":
            return TRUE if x[1] in m[1] else FALSE
    return S("has", m, x, st.ver.get(m, 0))


def record(E, st, m, v):
    """remember that value v is a member of container m (under the current path condition)"""
    if m[0] != "M" or m not in E.colls:
        return
    al = E.alloc_loops.get(m, ())
    loops = tuple(l for l in E.loopstack if l not in al)
    y = (st.pc, v, loops)
    if y not in E.colls[m]:
        E.colls[m] = E.colls[m] + (y,)


def from_yields(E, st, m, pos):
    """element `pos` of a container whose insertions are all known -> [(state, value)]"""
    ys = E.colls.get(m)
    if not ys or m in E.mutated or len(ys) > 24 or m[1] not in ("Vec", "VecDeque") or sum(len(y[0]) for y in ys) > 48:
        return None
    out = []
    for n, (pc, v, loops) in enumerate(ys):
        mp = rename_map(E, (pc, v), loops, m, pos, n)
        v2 = subst(v, mp) if mp else v
        conjs = set()
        for cj in pc:
            # merge this conjunction's facts into the state
            s = st
            for a, cons in cj:
                a2 = subst(a, mp) if mp else a
                s = E.restrict(s, a2, cons)
                if s is None:
                    break
            if s is not None:
                conjs |= set(s.pc)
        if conjs:
            s = st.copy()
            s.pc = E.simplify(frozenset(conjs))
            out.append((s, v2))
    return E.merge_rets(out)


def rename_map(E, t, loops, m, pos, n):
    mp = {}
    if not loops:
        return mp
    ls = set(loops)

    def walk(x):
        if isinstance(x, frozenset):
            for y in x:
                walk(y)
        elif isinstance(x, tuple):
            if len(x) == 5 and x[0] == "S" and x[1] == "phi" and x[2] in ls:
                mp[x] = S("ix", x[2], m, pos)
                return
            for y in x:
                walk(y)
    walk(t)
    return mp


# ------------------------------------------------------------------ iterators
def mkit(src, stages=(), pos=("i", 0)):
    return ("A", "#it", 0, (src, ("T", tuple(stages)), pos))


def is_it(v):
    return v[0] == "A" and v[1] == "#it"


def to_it(E, st, v, deep=True):
    """value -> iterator value (IntoIterator)"""
    l = E.load(st, v)
    if is_it(l):
        return v if v[0] == "R" else l
    if l[0] == "A" and l[1] in ("std::ops::Range", "std::ops::RangeFrom", "std::ops::RangeInclusive"):
        lo, hi = rng(E, st, l)
        return mkit(("A", "#range", 0, (lo, hi if hi is not None else UNIT)))
    if l[0] == "A" and l[1] == OPT:
        return mkit(("V", l[3]))
    if l[0] == "V" and v[0] == "R":
        # iterate over references to the elements
        return mkit(("V", tuple(l[1])))
    return mkit(E.deep(st, l) if l[0] != "M" else l)


@reg("std::iter::IntoIterator::into_iter", "std::slice::[T]::iter", "std::slice::[T]::iter_mut", "std::vec::Vec::iter",
     "std::collections::HashSet::iter", "std::collections::HashMap::iter", "std::collections::BTreeMap::iter",
     "std::collections::HashMap::iter_mut", "std::collections::BTreeMap::iter_mut", "std::option::Option::iter",
     "std::option::Option::into_iter", "std::slice::iter::&'a [T]::into_iter", "std::collections::HashSet::drain",
     "std::collections::HashMap::drain", "std::vec::Vec::into_iter", "std::collections::BTreeSet::iter",
     "std::io::BufRead::lines#", "std::io::Read::bytes#", "std::iter::Iterator::by_ref")
def into_iter(E, st, c):
    v = c.args[0]
    l = E.load(st, v)
    if c.path.endswith("by_ref"):
        return v
    ty = " ".join(c.ga[:1]) + c.f[1]
    if is_it(l):
        return v if v[0] == "R" else l
    if re.search(r"(HashMap|BTreeMap)", ty) and l[0] in ("M", "S"):
        return mkit(S("kv", l, st.ver.get(l, 0)))
    if l[0] in ("M", "S") and l in st.ver:
        return mkit(l)
    return to_it(E, st, v)


@reg("std::io::BufRead::lines", "std::env::args", "std::env::args_os")
def lines(E, st, c):
    return mkit(S(c.path.rsplit("::", 1)[1], *[E.deep(st, a) for a in c.args]))


@reg("std::collections::HashMap::keys", "std::collections::BTreeMap::keys", "std::collections::HashMap::values",
     "std::collections::BTreeMap::values", "std::collections::HashMap::values_mut", "std::collections::BTreeMap::values_mut",
     "std::collections::HashMap::into_keys", "std::collections::HashMap::into_values", "std::collections::BTreeMap::into_values",
     "std::collections::BTreeMap::into_keys")
def keys(E, st, c):
    m = base_of(E, st, c.args[0])
    k = 0 if "keys" in c.path else 1
    return mkit(S("kv", m, st.ver.get(m, 0)), (("A", "#proj", 0, (("i", k),)),))


def _stage(name, nargs=1):
    def f(E, st, c):
        it = c.args[0]
        l = E.load(st, it)
        if not is_it(l):
            it = l = to_it(E, st, it)
        args = tuple(c.args[1:])
        if name in ("zip", "chain"):
            args = (to_it(E, st, c.args[1]),)
        stg = ("A", "#" + name, 0, args + (("i", E.ctx(c.fr.id, ("stage", c.site), c.fr.key)),))
        if it[0] == "R":
            # adaptor over a borrowed iterator
            return mkit(("A", "#byref", 0, (it,)), (stg,))
        src, stages, pos = l[3]
        if name == "chain":
            return mkit(("A", "#chain", 0, (l, args[0])))
        if name == "skip":
            n = E.deep(st, c.args[1])
            if not stages[1]:
                return mkit(src, (), E.sum([pos, n]))
        if name == "rev" and src[0] == "V" and not stages[1] and pos == ("i", 0):
            return mkit(("V", src[1][::-1]))
        if name == "rev" and not stages[1] and pos == ("i", 0):
            return mkit(S("rev", src))
        if name == "step_by" and not stages[1] and pos == ("i", 0):
            return mkit(S("stepby", src, E.deep(st, c.args[1])))
        return mkit(src, stages[1] + (stg,), pos)
    return f


for _n in ("map", "filter", "filter_map", "enumerate", "skip", "take", "take_while", "skip_while", "rev", "zip", "chain",
           "flat_map", "flatten", "inspect", "map_while", "step_by", "peekable", "copied", "cloned", "fuse"):
    M["std::iter::Iterator::" + _n] = _stage(_n) if _n not in ("copied", "cloned", "peekable", "fuse") else ident


@reg("std::iter::zip")
def iter_zip(E, st, c):
    a = to_it(E, st, c.args[0])
    b = to_it(E, st, c.args[1])
    l = E.load(st, a)
    return mkit(l[3][0], l[3][1][1] + (("A", "#zip", 0, (b, ("i", 0))),), l[3][2])


@reg("std::iter::once")
def iter_once(E, st, c):
    return mkit(("V", (c.args[0],)))


@reg("std::iter::empty")
def iter_empty(E, st, c):
    return mkit(("V", ()))


@reg("std::iter::from_fn")
def iter_from_fn(E, st, c):
    return mkit(("A", "#fromfn", 0, (c.args[0],)))


def _filtering(stages):
    return any(s[1] in ("#filter", "#filter_map", "#flat_map", "#flatten", "#take_while", "#skip_while", "#map_while", "#step_by")
               for s in stages)


def raw(E, st, c, src, pos, ver_more=True):
    """element of an unfiltered source -> [(state, value|None)]"""
    if src[0] == "V":
        if pos[0] == "i":
            return [(st, src[1][pos[1]] if pos[1] < len(src[1]) else None)]
        r = []
        for s, b in E.fork_bool(st, S("more", src, pos)):
            r.append((s, S("elem", src, pos) if b else None))
        return r
    if src[0] == "A" and src[1] == "#range":
        lo, hi = src[3]
        v = E.sum([lo, pos])
        if hi == UNIT:
            return [(st, v)]
        b = E.binop(st, "Lt", v, hi, "usize")
        return [(s, v if t else None) for s, t in E.fork_bool(st, b)]
    if src[0] == "s":
        return [(st, ("i", ord(src[1][pos[1]])) if pos[1] < len(src[1]) else None)] if pos[0] == "i" else [(st, S("elem", src, pos))]
    if src[0] == "by" and pos[0] == "i":
        return [(st, ("i", src[1][pos[1]]) if pos[1] < len(src[1]) else None)]
    r = []
    if src[0] == "S" and src[1] in ("node_indices", "edge_indices"):
        more = S("more", S("raw_nodes" if src[1] == "node_indices" else "raw_edges", src[2]), pos)
        return [(s, S(src[1][:4] + "ix", pos) if b else None) for s, b in E.fork_bool(st, more)]
    for s, b in E.fork_bool(st, S("more", src, pos)):
        if not b:
            r.append((s, None))
            continue
        if src[0] == "S" and src[1] == "kv":
            m = src[2]
            outs = from_yields(E, s, m, pos) if m[0] == "M" and m in E.colls else None
            if outs:
                kk = S("key", m, pos)
                for s2, v in outs:
                    if v[0] == "T":
                        val = v[1][1]
                        r.append((s2, tup(v[1][0], val)))
                    else:
                        r.append((s2, v))
            else:
                k = S("key", m, pos)
                r.append((s, tup(k, S("at", m, k))))
            continue
        if src[0] == "M" and src in E.colls:
            outs = from_yields(E, s, src, pos)
            if outs:
                r.extend(outs)
                continue
        if E.elem_hook:
            h = E.elem_hook(s, src, pos)
            if h is not None:
                r.append((s, h))
                continue
        r.append((s, S("elem", src, pos)))
    return r


def stages_run(E, st, c, stages, i, v, pos, out):
    """push v through stages[i:]; out gets (state, 'val', v) | (state,'skip') | (state,'stop')"""
    while i < len(stages):
        sg = stages[i]
        n, a = sg[1], sg[3]
        site = ("stg", a[-1][1] if a and a[-1][0] == "i" else 0, i)
        if n == "#rev":
            if any(x[1] in ("#enumerate", "#zip", "#take", "#skip", "#take_while", "#skip_while", "#map_while") for x in stages[:i]):
                E.note("reversed iterator")
            i += 1
            v = S("reversed", v)
            continue
        if n in ("#skip", "#take"):
            k = pos if not _filtering(stages[:i]) else S("count", stage_id(stages[:i]), pos)
            more = []
            for s, t in E.fork_bool(st, E.binop(st, "Lt", k, E.deep(st, a[0]), "usize")):
                if t == (n == "#take"):
                    more.append(s)
                else:
                    out.append((s, "stop" if n == "#take" else "skip", None))
            for s in more[1:]:
                stages_run(E, s, c, stages, i + 1, v, pos, out)
            if not more:
                return
            st = more[0]
            i += 1
            continue
        if n == "#step_by":
            raise Incomplete("iterator step_by")
        if n == "#proj":
            v = E.vget(st, E.load(st, v), (0, a[0][1]))
            i += 1
            continue
        if n == "#enumerate":
            v = tup(pos if not _filtering(stages[:i]) else S("count", stage_id(stages[:i]), pos), v)
            i += 1
            continue
        if n == "#zip":
            other = E.load(st, a[0])
            osrc, ostg, opos = other[3]
            for s, w in raw(E, st, c, osrc, E.sum([opos, pos])):
                if w is None:
                    out.append((s, "stop", None))
                    continue
                tmp = []
                stages_run(E, s, c, ostg[1], 0, w, E.sum([opos, pos]), tmp)
                for s2, k, w2 in tmp:
                    if k == "val":
                        stages_run(E, s2, c, stages, i + 1, tup(v, w2), pos, out)
                    else:
                        out.append((s2, k, None))
            return
        f = a[0] if a else None
        if n == "#flatten":
            flat(E, st, c, stages, i, v, pos, out)
            return
        outs = E.apply(st, c.fr, site, f, [v])
        if n == "#map":
            if len(outs) == 1:
                st, v = outs[0]
                i += 1
                continue
            for s, w in outs:
                stages_run(E, s, c, stages, i + 1, w, pos, out)
            return
        if n == "#inspect":
            for s, _ in outs:
                stages_run(E, s, c, stages, i + 1, v, pos, out)
            return
        if n in ("#filter", "#take_while", "#skip_while"):
            for s, b in outs:
                for s2, t in E.fork_bool(s, b):
                    if n == "#skip_while":
                        # after the first kept element nothing is tested any more
                        out.append((s2, "skip", None)) if t else stages_run(E, s2, c, stages, i + 1, v, pos, out)
                    elif t:
                        stages_run(E, s2, c, stages, i + 1, v, pos, out)
                    else:
                        out.append((s2, "skip" if n == "#filter" else "stop", None))
            return
        if n in ("#filter_map", "#map_while"):
            for s, o in outs:
                for s2, good, p in opt_split(E, s, o):
                    if good:
                        stages_run(E, s2, c, stages, i + 1, p, pos, out)
                    else:
                        out.append((s2, "skip" if n == "#filter_map" else "stop", None))
            return
        if n == "#flat_map":
            for s, o in outs:
                flat(E, s, c, stages, i, o, pos, out)
            return
        E.note("iterator stage " + n)
        return
    out.append((st, "val", v))


def flat(E, st, c, stages, i, inner, pos, out):
    it = E.load(st, to_it(E, st, inner))
    src, stg, p0 = it[3]
    if src[0] == "A" and src[1] not in ("#range",):
        E.note("flattened iterator " + pp(src)[:60])
    p = S("fpos", stage_id(stages[:i + 1]), pos)
    if src[0] == "V" and pos[0] == "i" and len(src[1]) == 1:
        p = ("i", 0)
    for s, w in raw(E, st, c, src, p):
        if w is None:
            out.append((s, "skip", None))
            continue
        tmp = []
        stages_run(E, s, c, stg[1], 0, w, p, tmp)
        for s2, k, w2 in tmp:
            if k == "val":
                stages_run(E, s2, c, stages, i + 1, w2, pos, out)
            else:
                out.append((s2, "skip", None))


def stage_id(stages):
    return "/".join("%s%s" % (s[1][1:], s[3][-1][1] if s[3] and s[3][-1][0] == "i" else "") for s in stages)


def it_next(E, st, c, ref):
    """Iterator::next on the iterator stored at ref -> [(state, Option value)]"""
    while ref[0] == "R":
        v = E.rdcell(st, ref[1], ref[2])
        if v[0] == "R":
            ref = v
        else:
            break
    it = E.load(st, ref)
    if not is_it(it):
        if it[0] == "A" and it[1] in ("std::ops::Range", "std::ops::RangeFrom", "std::ops::RangeInclusive", OPT) or it[0] == "S":
            it = to_it(E, st, it)
            if ref[0] == "R":
                st = st.copy()
                E.wr(st, ref, (), it)
        else:
            return None
    src, stages, pos = it[3]
    stages = stages[1]
    if ref[0] != "R":
        cell = ("tmpit", E.ctx(c.fr.id, ("tmpit", c.site), c.fr.key))
        st = st.copy()
        st.mem[cell] = it
        ref = ("R", cell, ())

    def setpos(s, p):
        s = s.copy()
        E.wr(s, ref, ((0, 2),), p)
        return s
    # by-reference source: pull from the underlying iterator
    if src[0] == "A" and src[1] == "#byref":
        r, pull = [], [st]
        for i, sg in enumerate(stages):
            # a limit reached is noticed before anything is taken from the source
            if sg[1] == "#take" and not _filtering(stages[:i]):
                nxt = []
                for s0 in pull:
                    for s, t in E.fork_bool(s0, E.binop(s0, "Lt", pos, E.deep(s0, sg[3][0]), "usize")):
                        if t:
                            nxt.append(s)
                        else:
                            r.append((s, NONE))
                pull = nxt
        for s, o in [x for s0 in pull for x in it_next(E, s0, c, src[3][0])]:
            if o[2] == 0:
                r.append((s, NONE))
                continue
            tmp = []
            stages_run(E, s, c, stages, 0, o[3][0], pos, tmp)
            for s2, k, w in tmp:
                if k == "val":
                    r.append((setpos(s2, E.sum([pos, ("i", 1)])), some(w)))
                elif k == "stop":
                    r.append((s2, NONE))
                # skipped elements: the generic next element stands for them
        return r
    if src[0] == "A" and src[1] == "#chain":
        r = []
        a, b = src[3]
        outs = []
        for s, o in it_next(E, st, c, ("R", ref[1], ref[2] + ((0, 0), (0, 0)))):
            if o[2] == 1:
                outs.append((s, o))
            else:
                outs.extend(it_next(E, s, c, ("R", ref[1], ref[2] + ((0, 0), (0, 1)))))
        for s, o in outs:
            if o[2] == 0:
                r.append((s, NONE))
                continue
            tmp = []
            stages_run(E, s, c, stages, 0, o[3][0], pos, tmp)
            for s2, k, w in tmp:
                if k == "val":
                    r.append((setpos(s2, E.sum([pos, ("i", 1)])) if stages else s2, some(w)))
                elif k == "stop":
                    r.append((s2, NONE))
        return r
    if src[0] == "A" and src[1] == "#fromfn":
        return E.apply(st, c.fr, (c.site, "fromfn"), src[3][0], [])
    if not _filtering(stages):
        r = []
        for s, v in raw(E, st, c, src, pos):
            if v is None:
                r.append((s, NONE))
                continue
            tmp = []
            stages_run(E, s, c, stages, 0, v, pos, tmp)
            for s2, k, w in tmp:
                if k == "val":
                    r.append((setpos(s2, E.sum([pos, ("i", 1)])), some(w)))
                else:
                    r.append((s2, NONE))
        return r
    if src[0] == "V" and pos[0] == "i":
        r, cur, p = [], [st], pos[1]
        flatn = any(s[1] in ("#flat_map", "#flatten") for s in stages)
        while cur:
            nxt = []
            for s in cur:
                if p >= len(src[1]):
                    r.append((setpos(s, ("i", p)), NONE))
                    continue
                tmp = []
                stages_run(E, s, c, stages, 0, src[1][p], ("i", p), tmp)
                for s2, k, w in tmp:
                    if k == "val":
                        r.append((setpos(s2, ("i", p + 1)), some(w)))
                    elif k == "stop":
                        r.append((setpos(s2, ("i", len(src[1]))), NONE))
                    else:
                        nxt.append(s2)
            cur = E.merge_states(nxt)
            p += 1
        return r
    # filtered symbolic source: the pos-th accepted element
    apos = S("acc", stage_id(stages), pos)
    r = []
    staged = S("staged", src, stage_id(stages))
    for s, b in E.fork_bool(st, S("more", staged, pos)):
        if not b:
            r.append((s, NONE))
            continue
        for s1, v in raw(E, s, c, src, apos):
            if v is None:
                continue
            tmp = []
            stages_run(E, s1, c, stages, 0, v, apos, tmp)
            for s2, k, w in tmp:
                if k == "val":
                    r.append((setpos(s2, E.sum([pos, ("i", 1)])), some(w)))
                elif k == "stop":
                    r.append((s2, NONE))
    return r


@reg("std::iter::Iterator::next", "std::iter::DoubleEndedIterator::next_back", "std::iter::range::std::ops::Range::next")
def m_next(E, st, c):
    if c.path.endswith("next_back"):
        return None
    return it_next(E, st, c, c.args[0])


@reg("std::iter::Iterator::nth")
def m_nth(E, st, c):
    n = E.deep(st, c.args[1])
    ref = c.args[0]
    it = E.load(st, ref)
    if not is_it(it):
        return None
    if n[0] == "i" and n[1] < 40:
        cur, out = [(st, NONE)], []
        for i in range(n[1] + 1):
            nxt = []
            for s, _ in cur:
                for s2, o in it_next(E, s, c, ref):
                    if o[2] == 0:
                        out.append((s2, NONE))
                    else:
                        nxt.append((s2, o))
            cur = nxt
        return out + cur
    src, stages, pos = it[3]
    if _filtering(stages[1]):
        return None
    st = st.copy()
    E.wr(st, ref, ((0, 2),), E.sum([pos, n]))
    return it_next(E, st, c, ref)


@reg("std::iter::Peekable::peek", "std::iter::Peekable::next_if", "std::iter::Iterator::last", "std::iter::Iterator::nth_back")
def m_unsup(E, st, c):
    return None


def own_it(E, st, ref):
    """a range that is used as an iterator in place becomes an iterator"""
    v = ref
    while v[0] == "R":
        ref, v = v, E.rdcell(st, v[1], v[2])
    if v[0] == "A" and v[1] in ("std::ops::Range", "std::ops::RangeFrom", "std::ops::RangeInclusive"):
        E.wr(st, ref, (), to_it(E, st, v))


def consume(E, st, c, itv, step, tag="it"):
    """run an iterator to exhaustion; step(state, value) -> [(state, 'cont') | (state, ('done', value))].
    -> [(state, None)] on exhaustion and [(state, value)] on early exit"""
    cell = ("it", E.ctx(c.fr.id, (tag, c.site), c.fr.key), 0)
    lid = E.ctx(c.fr.id, ("cloop", c.site, tag), c.fr.key)
    st = st.copy()
    if itv[0] == "R":
        ref = itv
        own_it(E, st, ref)
    else:
        l = E.load(st, itv)
        st.mem[cell] = l if is_it(l) else to_it(E, st, l)
        ref = ("R", cell, ())

    def runner(s):
        backs, exits = [], []
        outs = it_next(E, s, c, ref)
        if outs is None:
            raise Incomplete("iterator of unknown shape in " + c.fr.key)
        for s1, o in outs:
            if o[2] == 0:
                exits.append((None, s1))
                continue
            for s2, k in step(s1, o[3][0]):
                if k == "cont":
                    backs.append(s2)
                else:
                    exits.append((k, s2))
        return E.merge_states(backs), exits, []
    exits, _ = E.fixpoint(st, lid, runner)
    out = []
    for k, s in exits:
        if itv[0] != "R":
            s = s.copy()
            s.mem.pop(cell, None)
        out.append((s, None if k is None else k[1]))
    return out


def acc_cell(E, c, tag):
    return ("acc", E.ctx(c.fr.id, ("acc", c.site, tag), c.fr.key), 0)


def dest_type(E, c):
    """type of the place the call's result goes to"""
    try:
        return E.bodies[c.fr.key]["locals"][c.t[3][0]][0] if not c.t[3][1] else ""
    except (LookupError, TypeError):
        return ""


def m_fold_with(E, st, c, it, f, tag):
    """Iterator::reduce with a function of the analysis"""
    cell = acc_cell(E, c, tag)
    st = st.copy()
    fcell = ("it", E.ctx(c.fr.id, ("redit", c.site), c.fr.key), 0)
    if it[0] != "R":
        l = E.load(st, it)
        st.mem[fcell] = l if is_it(l) else to_it(E, st, l)
        it = ("R", fcell, ())

    def step(s, v):
        r = []
        for s2, a in f(s, s.mem[cell], v):
            s2 = s2.copy()
            s2.mem[cell] = a
            r.append((s2, "cont"))
        return r
    out = []
    for s, o in it_next(E, st, c, it):
        if o[2] == 0:
            out.append((s, NONE))
            continue
        s = s.copy()
        s.mem[cell] = E.deep(s, o[3][0])
        for s2, _ in consume(E, s, c, it, step, tag):
            s2 = s2.copy()
            out.append((s2, some(s2.mem.pop(cell))))
    return out


@reg("std::iter::Iterator::fold", "std::iter::Iterator::reduce")
def m_fold(E, st, c):
    cell = acc_cell(E, c, "fold")
    st = st.copy()
    red = c.path.endswith("reduce")
    it = c.args[0]
    if red:
        fcell = ("it", E.ctx(c.fr.id, ("redit", c.site), c.fr.key), 0)
        l = E.load(st, it)
        if it[0] != "R":
            st.mem[fcell] = l if is_it(l) else to_it(E, st, l)
            it = ("R", fcell, ())
        starts = []
        out = []
        for s, o in it_next(E, st, c, it):
            if o[2] == 0:
                out.append((s, NONE))
            else:
                s = s.copy()
                s.mem[cell] = o[3][0]
                starts.append(s)
        f = c.args[1]
    else:
        st.mem[cell] = c.args[1]
        starts, out = [st], []
        f = c.args[2]

    def step(s, v):
        r = []
        for s2, a in E.apply(s, c.fr, (c.site, "f"), f, [s.mem[cell], v]):
            s2 = s2.copy()
            s2.mem[cell] = a
            r.append((s2, "cont"))
        return r
    for s0 in starts:
        for s, _ in consume(E, s0, c, it, step, "fold"):
            s = s.copy()
            v = s.mem.pop(cell)
            out.append((s, some(v) if red else v))
    return out


def pred_consume(E, st, c, want, tag):
    """shared by any/all/find/position: stop at the first element for which the predicate == want"""
    def step(s, v):
        r = []
        for s2, b in E.apply(s, c.fr, (c.site, "p"), c.args[1], [v]):
            for s3, t in E.fork_bool(s2, b):
                r.append((s3, ("done", v)) if t == want else (s3, "cont"))
        return r
    return consume(E, st, c, c.args[0], step, tag)


@reg("std::iter::Iterator::any", "std::iter::Iterator::all")
def m_any(E, st, c):
    anyp = c.path.endswith("any")
    src = E.load(st, c.args[0])
    outs = pred_consume(E, st, c, anyp, "any")
    r = []
    for s, v in outs:
        r.append((s, (TRUE if anyp else FALSE) if v is not None else (FALSE if anyp else TRUE)))
    return merge_out(E, r)


@reg("std::iter::Iterator::find")
def m_find(E, st, c):
    return [(s, NONE if v is None else some(v)) for s, v in pred_consume(E, st, c, True, "find")]


@reg("std::iter::Iterator::position")
def m_position(E, st, c):
    return [(s, NONE if v is None else some(S("position", E.deep(s, v)))) for s, v in pred_consume(E, st, c, True, "pos")]


@reg("std::iter::Iterator::find_map")
def m_find_map(E, st, c):
    def step(s, v):
        r = []
        for s2, o in E.apply(s, c.fr, (c.site, "f"), c.args[1], [v]):
            for s3, good, p in opt_split(E, s2, o):
                r.append((s3, ("done", p)) if good else (s3, "cont"))
        return r
    return [(s, NONE if v is None else some(v)) for s, v in consume(E, st, c, c.args[0], step, "findmap")]


@reg("std::iter::Iterator::for_each")
def m_for_each(E, st, c):
    def step(s, v):
        return [(s2, "cont") for s2, _ in E.apply(s, c.fr, (c.site, "f"), c.args[1], [v])]
    return [(s, UNIT) for s, v in consume(E, st, c, c.args[0], step, "foreach")]


@reg("std::iter::Iterator::try_for_each")
def m_try_for_each(E, st, c):
    def step(s, v):
        r = []
        for s2, o in E.apply(s, c.fr, (c.site, "f"), c.args[1], [v]):
            for s3, good, p in res_split(E, s2, o):
                r.append((s3, "cont") if good else (s3, ("done", err(p))))
        return r
    return [(s, ok(UNIT) if v is None else v) for s, v in consume(E, st, c, c.args[0], step, "tryforeach")]


@reg("std::iter::Iterator::max", "std::iter::Iterator::min", "std::iter::Iterator::sum", "std::iter::Iterator::count",
     "std::iter::Iterator::max_by", "std::iter::Iterator::max_by_key", "std::iter::Iterator::min_by_key", "std::iter::Iterator::product")
def m_agg(E, st, c):
    op = c.path.rsplit("::", 1)[1]
    if op in ("max", "min") and re.fullmatch(r"std::option::Option<&?(?:'\w+ )?[ui](8|16|32|64|128|size)>", dest_type(E, c)):
        return m_fold_with(E, st, c, c.args[0], lambda s, x, y: [(s, minmax(op, E.deep(s, x), E.deep(s, y)))], op)
    cell = acc_cell(E, c, op)
    vals = []

    def step(s, v):
        d = E.deep(s, v)
        if not E.warm:
            vals.append((s.pc, d))
        return [(s, "cont")]
    it = E.load(st, c.args[0])
    if is_it(it) and it[3][0][0] == "V" and not it[3][1][1] and op == "count":
        return ("i", len(it[3][0][1]))
    out = []
    for s, _ in consume(E, st, c, c.args[0], step, "agg"):
        t = S("agg", op, it[3][0] if is_it(it) else it, tuple(sorted(set(vals), key=repr))[:8])
        out.append((s, t if op in ("sum", "count", "product") else t))
    return out


def cont_kind(ty):
    m = re.match(r"(?:std|alloc|core)::(?:\w+::)*(Vec|HashMap|HashSet|BTreeMap|BTreeSet|String|VecDeque|Box)\b", ty)
    if not m:
        m = re.match(r"(Vec|HashMap|HashSet|BTreeMap|BTreeSet|String|Box)\b", ty)
    if m:
        return "Vec" if m.group(1) == "Box" else m.group(1)
    return None


@reg("std::iter::Iterator::collect", "std::iter::FromIterator::from_iter")
def m_collect(E, st, c):
    ty = c.ga[-1] if c.ga else ""
    for g in c.ga:
        if cont_kind(g) or re.match(r"(std|core)::(result::Result|option::Option)<", g):
            ty = g
    kind = cont_kind(ty)
    it = E.load(st, c.args[0])
    if c.args[0][0] != "R" and is_it(it) and it[3][0][0] == "V" and not it[3][1][1] and kind == "Vec" and it[3][2] == ("i", 0):
        return it[3][0]
    if kind == "Vec" and is_it(it) and not it[3][1][1] and it[3][2] == ("i", 0) and it[3][0][0] in ("M", "S") and c.args[0][0] != "R":
        # a plain copy of the sequence
        if not (it[3][0][0] == "S" and it[3][0][1] == "kv"):
            return it[3][0]
    wrapk = None
    if kind is None:
        m = re.match(r"(?:std|core)::(result::Result|option::Option)<(.*)", ty)
        if m:
            wrapk = "res" if "result" in m.group(1) else "opt"
            kind = cont_kind(m.group(2)) or "Vec"
        else:
            kind = ty.split("<")[0].rsplit("::", 1)[-1] or "Vec"
    if kind == "String":
        cell = acc_cell(E, c, "str")
        st = st.copy()
        st.mem[cell] = ("s", "")

        def stepS(s, v):
            s = s.copy()
            x = E.deep(s, v)
            if x[0] == "i":
                x = ("s", chr(x[1]))
            s.mem[cell] = concat(E, [s.mem[cell], x])
            return [(s, "cont")]
        r = []
        for s, _ in consume(E, st, c, c.args[0], stepS, "coll"):
            s = s.copy()
            r.append((s, s.mem.pop(cell)))
        return r
    m = new_cont(E, st, c, kind, "collect")
    st = st.copy()
    st.ver.pop(m, None)
    ismap = "Map" in kind

    def step(s, v):
        r = []
        if wrapk:
            for s2, good, p in (res_split if wrapk == "res" else opt_split)(E, s, v):
                if good:
                    record(E, s2, m, E.deep(s2, p))
                    E.ev(s2, c.fr, "push", m, E.deep(s2, p))
                    r.append((s2, "cont"))
                else:
                    r.append((s2, ("done", err(p) if wrapk == "res" else NONE)))
            return r
        d = E.deep(s, v)
        record(E, s, m, d)
        if ismap and d[0] == "T":
            E.ev(s, c.fr, "insert", m, d[1][0], d[1][1])
        else:
            E.ev(s, c.fr, "sins" if "Set" in kind else "push", m, d)
        return [(s, "cont")]
    r = []
    for s, v in consume(E, st, c, c.args[0], step, "coll"):
        if v is not None:
            r.append((s, v))
        else:
            r.append((s, ok(m) if wrapk == "res" else some(m) if wrapk == "opt" else m))
    return r


@reg("std::iter::Iterator::partition", "std::iter::Iterator::unzip")
def m_partition(E, st, c):
    return None


@reg("std::iter::Extend::extend", "std::vec::Vec::extend_from_slice", "std::collections::HashSet::extend")
def m_extend(E, st, c):
    m = base_of(E, st, c.args[0])
    it = to_it(E, st, c.args[1])
    ismap = "Map" in c.f[1] or (m[0] == "M" and "Map" in m[1])
    if m[0] == "V":
        l = E.load(st, it)
        if l[3][0][0] == "V" and not l[3][1][1]:
            st = st.copy()
            E.wr(st, c.args[0], (), ("V", m[1] + l[3][0][1]))
            return [(st, UNIT)]

    def step(s, v):
        d = E.deep(s, v)
        record(E, s, m, d)
        if ismap and d[0] == "T":
            E.ev(s, c.fr, "insert", m, d[1][0], d[1][1])
        else:
            E.ev(s, c.fr, "sins" if "Set" in c.f[1] else "push", m, d)
        return [(s, "cont")]
    return [(bump(E, s, m, sitetag(E, c)), UNIT) for s, v in consume(E, st, c, it, step, "extend")]


@reg("std::slice::[T]::chunks_exact", "std::slice::[T]::chunks", "std::slice::[T]::windows")
def chunks(E, st, c):
    v, n = E.deep(st, c.args[0]), E.deep(st, c.args[1])
    return mkit(S(c.path.rsplit("::", 1)[1], v, n))


# ------------------------------------------------------------------ calls through Fn traits
@reg("std::ops::Fn::call", "std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once")
def fn_call(E, st, c):
    a = E.load(st, c.args[1])
    args = list(a[1]) if a[0] == "T" else [c.args[1]]
    return E.apply(st, c.fr, (c.site, "fn"), c.args[0], args)


# ------------------------------------------------------------------ formatting
def decode_template(bs, nargs):
    """-> [('s',lit) | ('arg', index, flags)]"""
    out, i, nxt = [], 0, 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(("s", bs[i:i + b].decode("utf-8", "replace")))
            i += b
        elif b == 0x80:
            n = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(("s", bs[i:i + n].decode("utf-8", "replace")))
            i += n
        else:
            fl = b & 0x3F
            spec = []
            if fl & 1:
                spec.append(("flags", int.from_bytes(bs[i:i + 4], "little")))
                i += 4
            if fl & 2:
                spec.append(("width", int.from_bytes(bs[i:i + 2], "little")))
                i += 2
            if fl & 4:
                spec.append(("prec", int.from_bytes(bs[i:i + 2], "little")))
                i += 2
            idx = nxt
            if fl & 8:
                idx = int.from_bytes(bs[i:i + 2], "little")
                i += 2
            nxt = idx + 1
            out.append(("arg", idx, tuple(spec)))
    return out


@reg("std::fmt::Arguments::new", "std::fmt::rt::Arguments::new")
def fmt_new(E, st, c):
    t = E.load(st, c.args[0])
    a = E.load(st, c.args[1])
    args = a[1] if a[0] == "V" else ()
    if t[0] == "V" and all(x[0] == "i" for x in t[1]):
        t = ("by", bytes(x[1] for x in t[1]))
    if t[0] == "s":
        t = ("by", t[1].encode("latin-1", "replace"))
    if t[0] != "by":
        E.note("format template of unknown shape")
        return S("fmtargs", t, *args)
    out = []
    for p in decode_template(t[1], len(args)):
        if p[0] == "s":
            out.append(p)
        else:
            x = E.load(st, args[p[1]])
            if x[0] == "A" and x[1] == "#arg":
                out.append(disp(E, st, x[3][0], x[3][1], p[2]))
            else:
                out.append(S("disp", "?", E.deep(st, x)))
    return ("A", "#fmt", 0, (concat_pieces(out),))


def concat_pieces(ps):
    out = []
    for p in ps:
        for x in (p[2:] if p[0] == "S" and p[1] == "cat" else (p,)):
            if x[0] == "s":
                if not x[1]:
                    continue
                if out and out[-1][0] == "s":
                    out[-1] = ("s", out[-1][1] + x[1])
                    continue
            out.append(x)
    return ("T", tuple(out))


def disp(E, st, kind, v, spec):
    d = E.deep(st, v)
    k = kind[1]
    if k == "new_display" and not spec:
        if d[0] == "s":
            return d
        if d[0] == "A" and d[1] == "#fmt":
            return S("cat", *d[3][0][1])
        if d[0] == "S" and d[1] == "cat":
            return d
        if d[0] == "i" and kind[2] in E.BITS and kind[2] not in ("bool", "char"):
            return ("s", str(d[1]))
        return S("disp", d)
    return S("fmt", k, d, spec)


@reg("std::fmt::Arguments::from_str", "std::fmt::Arguments::new_const", "std::fmt::rt::Arguments::from_str", "std::fmt::Arguments::from_str_nonconst")
def fmt_from_str(E, st, c):
    s = E.load(st, c.args[0])
    if s[0] == "V":
        return ("A", "#fmt", 0, (concat_pieces(s[1]),))
    return ("A", "#fmt", 0, (concat_pieces([s]),))


@reg("std::fmt::rt::Argument::new_display", "std::fmt::rt::Argument::new_debug", "std::fmt::rt::Argument::new_lower_hex",
     "std::fmt::rt::Argument::new_upper_hex", "std::fmt::rt::Argument::new_octal", "std::fmt::rt::Argument::new_binary",
     "std::fmt::rt::Argument::new_pointer")
def fmt_arg(E, st, c):
    ty = c.ga[0].lstrip("&") if c.ga else ""
    kind = c.path.rsplit("::", 1)[1]
    if kind == "new_display":
        k = E.bypath.get("<%s as std::fmt::Display>::fmt" % ty)
        if k is not None and not E.bodies[k].get("derived") and simple_body(E, k):
            s = st.copy()
            f = S("fmtr", sitetag(E, c))
            s.mem[("#tape", f)] = ("s", "")
            out = []
            sil, E.silent = E.silent, E.silent + 1
            try:
                outs = E.call_body(s, c.fr, c.site, k, [c.args[0], f])
            finally:
                E.silent = sil
            for s2, v in outs:
                t = s2.mem.pop(("#tape", f))
                if v[0] == "A" and v[2] == 1:
                    continue
                out.append((s2, ("A", "#arg", 0, (("s", kind, "&str"), t))))
            return out
    return ("A", "#arg", 0, (("s", kind, ty), E.deep(st, c.args[0])))


def simple_body(E, k):
    return not E.cfg(k)["loops"] and len(E.bodies[k]["blocks"]) < 40


@reg("std::fmt::format", "std::fmt::format::format_inner")
def fmt_format(E, st, c):
    v = E.deep(st, c.args[0])
    if v[0] == "A" and v[1] == "#fmt":
        return concat(E, list(v[3][0][1]))
    return S("format", v)


def pieces(v):
    if v[0] == "A" and v[1] == "#fmt":
        return v[3][0]
    return ("T", (v,))


def fallible(E, st, c, tag):
    """result of an I/O or formatting operation that may fail"""
    t = S("io", tag, sitetag(E, c), st.ver.get("#io", 0))
    return t


@reg("std::io::Write::write_fmt", "std::fmt::Write::write_fmt", "std::fmt::Formatter::write_fmt")
def write_fmt(E, st, c):
    dest = E.load(st, c.args[0])
    p = pieces(E.deep(st, c.args[1]))
    # a Write implementation of the crate: run it on the pieces
    return emit(E, st, c, c.args[0], dest, p)


def emit(E, st, c, ref, dest, p):
    if E.write_hook:
        r = E.write_hook(st, c, ref, dest, p)
        if r is not None:
            return r
    if dest[0] == "s" or (dest[0] == "S" and dest[1] == "cat"):
        st = st.copy()
        E.wr(st, ref, (), concat(E, [dest] + list(p[1])))
        return [(st, ok(UNIT))]
    n = sitetag(E, c)
    E.ev(st, c.fr, "write", dest, p, S("io", "write", n))
    st = st.copy()
    root, via = tape_root(E, st, dest)
    cell = ("#tape", root)
    if cell in st.mem:
        ps = list(p[1])
        if via:
            ps = [S("via", via, concat(E, ps))]
        st.mem[cell] = concat(E, [st.mem[cell]] + ps)
    if dest[0] == "A" and dest[1] in E.adts:
        # a writer of the analysed crate: whatever it remembers may have changed
        for i, f in enumerate(dest[3]):
            if f[0] != "R" and tape_root(E, st, f)[0] != root:
                E.wr(st, ref, ((0, i),), S("afterwrite", n, i))
    return [(st, S("io", "write", n))]


def tape_root(E, st, d, n=0):
    """the outermost sink behind a writer value, and the type of the adapter in front of it"""
    d = E.load(st, d)
    if d[0] == "A" and d[1] in E.adts and n < 4:
        for f in d[3]:
            r, _ = tape_root(E, st, f, n + 1)
            if ("#tape", r) in st.mem:
                return r, d[1]
    return E.deep(st, d), None


@reg("std::fmt::Formatter::write_str", "std::fmt::Write::write_str", "std::io::Write::write_all", "std::io::Write::write",
     "std::fmt::Formatter::pad", "std::fmt::Write::write_char", "std::fmt::Formatter::write_char")
def write_str(E, st, c):
    dest = E.load(st, c.args[0])
    x = E.deep(st, c.args[1])
    if x[0] == "i":
        x = ("s", chr(x[1]))
    if x[0] == "by":
        x = ("s", x[1].decode("utf-8", "replace"))
    return emit(E, st, c, c.args[0], dest, concat_pieces([x if x[0] in ("s",) or (x[0] == "S" and x[1] == "cat") else S("disp", x)]))


@reg("std::fmt::Display::fmt", "std::fmt::Debug::fmt")
def display_fmt(E, st, c):
    dest = E.load(st, c.args[1])
    x = E.deep(st, c.args[0])
    k = "new_display" if "Display" in c.path or "Display" in c.f[4] else "new_debug"
    return emit(E, st, c, c.args[1], dest, concat_pieces([disp(E, st, ("s", k, (c.ga[0] if c.ga else "").lstrip("&")), x, ())]))


@reg("std::io::_eprint", "std::io::stdio::_eprint")
def eprint(E, st, c):
    E.ev(st, c.fr, "eprint", pieces(E.deep(st, c.args[0])))
    return UNIT


@reg("std::io::_print", "std::io::stdio::_print")
def oprint(E, st, c):
    E.ev(st, c.fr, "write", S("stdout"), pieces(E.deep(st, c.args[0])))
    return UNIT


@reg("std::io::stdout", "std::io::Stdout::lock", "std::io::StdoutLock")
def stdout(E, st, c):
    return S("stdout")


@reg("std::io::BufWriter::new", "std::io::LineWriter::new", "std::io::BufWriter::with_capacity", "std::io::LineWriter::with_capacity")
def bufwriter(E, st, c):
    E.buffered = True
    return E.load(st, c.args[-1])


@reg("std::io::Write::flush")
def flush(E, st, c):
    t = S("io", "flush", sitetag(E, c))
    for k in [k for k in st.mem if isinstance(k, tuple) and k[0] == "#tape"]:
        st.mem[("#flushed",) + k[1:]] = st.mem[k]
    E.ev(st, c.fr, "flush", E.deep(st, c.args[0]), (), t)
    return t


# ------------------------------------------------------------------ logging, panics, process
@reg("log::max_level")
def log_max(E, st, c):
    return S("loglevel")


@reg("log::__private_api_log", "log::__private_api::log")
def log_log(E, st, c):
    a = [E.deep(st, x) for x in c.args]
    lvl = a[1] if len(a) > 1 else UNIT
    E.ev(st, c.fr, "log", lvl, pieces(a[0]))
    return UNIT


@reg("std::panicking::panic", "std::panicking::panic_fmt", "std::panicking::unreachable_default_msg", "std::panicking::assert_failed",
     "std::panicking::panic_display", "std::panicking::panic_explicit", "std::panicking::unreachable_display",
     "std::panicking::panic_str_2015", "std::rt::panic_fmt", "std::rt::begin_panic", "std::panicking::panic_str_literal",
     "std::panicking::panic_nounwind")
def m_panic(E, st, c):
    E.panic(st, c.fr, c.path.rsplit("::", 1)[1], *[E.deep(st, x) for x in c.args])
    return []


@reg("std::process::exit")
def m_exit(E, st, c):
    E.ev(st, c.fr, "exit", E.deep(st, c.args[0]))
    return []


@reg("std::process::Command::new")
def cmd_new(E, st, c):
    m = new_cont(E, st, c, "Command")
    E.ev(st, c.fr, "cmd-new", m, E.deep(st, c.args[0]))
    return m


@reg("std::process::Command::arg", "std::process::Command::args", "std::process::Command::env", "std::process::Command::stderr",
     "std::process::Command::stdout", "std::process::Command::stdin", "std::process::Command::env_remove",
     "std::process::Command::env_clear", "std::process::Command::current_dir", "std::process::Command::envs")
def cmd_arg(E, st, c):
    m = base_of(E, st, c.args[0])
    op = c.path.rsplit("::", 1)[1]
    a = tuple(E.deep(st, x) for x in c.args[1:])
    if op == "args" and a[0][0] == "V":
        for x in a[0][1]:
            E.ev(st, c.fr, "cmd", m, "arg", x)
    else:
        E.ev(st, c.fr, "cmd", m, op, *a)
    return c.args[0]


@reg("std::process::Command::spawn", "std::process::Command::status", "std::process::Command::output")
def cmd_run(E, st, c):
    m = base_of(E, st, c.args[0])
    op = c.path.rsplit("::", 1)[1]
    E.ev(st, c.fr, "cmd-run", m, op)
    return S(op, m)


@reg("cargo_project::Profile::is_release")
def is_release(E, st, c):
    v = E.deep(st, c.args[0])
    return ("i", 1 if v[2] == 1 else 0) if v[0] == "A" else S("release", v)


@reg("anyhow::private::format_err", "anyhow::Error::msg", "anyhow::error::anyhow::Error::msg", "anyhow::__private::format_err",
     "anyhow::error::Error::msg")
def anyhow_err(E, st, c):
    v = E.deep(st, c.args[0])
    if v[0] == "A" and v[1] == "#fmt":
        v = concat(E, list(v[3][0][1]))
    return S("error", v)


# ------------------------------------------------------------------ petgraph
@reg("petgraph::Graph::add_node", "petgraph::graph::Graph::add_node")
def add_node(E, st, c):
    g, w = base_of(E, st, c.args[0]), E.deep(st, c.args[1])
    phs = ()
    n = S("newnode", g, sitetag(E, c), st.ver.get(("g", g), 0))
    E.ev(st, c.fr, "add_node", g, w, n)
    st = st.copy()
    st.ver[("g", g)] = sitetag(E, c)
    st.sh[S("at", g, n)] = w
    E.node_weight.setdefault(n, set()).add(w) if not E.silent else None
    return [(st, n)]


@reg("petgraph::Graph::add_edge", "petgraph::graph::Graph::add_edge")
def add_edge(E, st, c):
    g = base_of(E, st, c.args[0])
    a, b = E.deep(st, c.args[1]), E.deep(st, c.args[2])
    E.ev(st, c.fr, "add_edge", g, a, b)
    st = st.copy()
    st.ver[("e", g)] = sitetag(E, c)
    return [(st, S("edge", sitetag(E, c)))]


@reg("petgraph::Graph::find_edge", "petgraph::Graph::contains_edge")
def find_edge(E, st, c):
    g = base_of(E, st, c.args[0])
    a, b = E.deep(st, c.args[1]), E.deep(st, c.args[2])
    t = S("hasedge", g, a, b, st.ver.get(("e", g), 0))
    if c.path.endswith("contains_edge"):
        return t
    return [(s, some(S("edgeix", g, a, b)) if x else NONE) for s, x in E.fork_bool(st, t)]


@reg("petgraph::Graph::neighbors", "petgraph::Graph::neighbors_directed", "petgraph::visit::IntoNeighbors::neighbors",
     "petgraph::visit::IntoNeighborsDirected::neighbors_directed")
def neighbors(E, st, c):
    g, n = base_of(E, st, c.args[0]), E.deep(st, c.args[1])
    d = "out"
    if len(c.args) > 2:
        dv = E.deep(st, c.args[2])
        d = {0: "out", 1: "in"}.get(dv[2] if dv[0] == "A" else None, "?")
    return mkit(S("nbrs", g, n, d))


@reg("petgraph::graph::Neighbors::detach")
def detach(E, st, c):
    return E.load(st, c.args[0])


@reg("petgraph::graph::WalkNeighbors::next", "petgraph::graph::WalkNeighbors::next_node")
def walk_next(E, st, c):
    it = E.load(st, c.args[0])
    if is_it(it) and len(c.args) > 1:
        E.ev(st, c.fr, "visit", it[3][0], E.deep(st, c.args[1]))
    r = []
    for s, o in it_next(E, st, c, c.args[0]):
        if o[2] == 0 or c.path.endswith("next_node"):
            r.append((s, o))
        else:
            r.append((s, some(tup(S("edgeof", E.deep(s, o[3][0])), o[3][0]))))
    return r


@reg("petgraph::graph::WalkNeighbors::next_edge")
def walk_next_edge(E, st, c):
    return None


@reg("petgraph::visit::Dfs::new", "petgraph::visit::Bfs::new", "petgraph::visit::DfsPostOrder::new")
def dfs_new(E, st, c):
    return mkit(S(c.path.split("::")[-2].lower(), E.deep(st, c.args[0]), E.deep(st, c.args[1])))


@reg("petgraph::visit::Topo::new")
def topo_new(E, st, c):
    return mkit(S("topo", E.deep(st, c.args[0])))


@reg("petgraph::visit::Dfs::next", "petgraph::visit::Bfs::next", "petgraph::visit::Topo::next", "petgraph::visit::DfsPostOrder::next")
def dfs_next(E, st, c):
    it = E.load(st, c.args[0])
    if is_it(it) and len(c.args) > 1:
        E.ev(st, c.fr, "visit", it[3][0], E.deep(st, c.args[1]))
    return it_next(E, st, c, c.args[0])


@reg("petgraph::algo::kosaraju_scc", "petgraph::algo::tarjan_scc", "petgraph::algo::scc::kosaraju_scc", "petgraph::algo::scc::tarjan_scc")
def scc(E, st, c):
    g = E.deep(st, c.args[0])
    E.ev(st, c.fr, "scc", g)
    return S("scc", g)


@reg("petgraph::algo::is_cyclic_directed")
def cyclic(E, st, c):
    return S("cyclic", E.deep(st, c.args[0]))


@reg("petgraph::Graph::node_weights_mut", "petgraph::Graph::node_weights", "petgraph::Graph::raw_nodes", "petgraph::Graph::raw_edges",
     "petgraph::Graph::node_indices", "petgraph::Graph::edge_indices", "petgraph::Graph::node_references", "petgraph::Graph::edge_references",
     "petgraph::visit::IntoNodeReferences::node_references", "petgraph::visit::IntoEdgeReferences::edge_references")
def graph_iter(E, st, c):
    g = base_of(E, st, c.args[0])
    op = c.path.rsplit("::", 1)[1]
    if op in ("node_weights_mut", "node_weights"):
        return mkit(S("node_indices", g), (("A", "#map", 0, (("A", "#nodeweight", 0, (g,)), ("i", 0))),))
    if op == "node_references":
        return mkit(S("node_indices", g), (("A", "#map", 0, (("A", "#noderef", 0, (g,)), ("i", 0))),))
    if op == "raw_nodes":
        return S("raw_nodes", g)
    if op == "edge_indices":
        return mkit(S("edge_indices", g))
    if op == "node_indices":
        return mkit(S("node_indices", g))
    return S("raw_edges", g) if op == "raw_edges" else mkit(S("raw_edges", g))


@reg("petgraph::Graph::node_weight", "petgraph::Graph::node_weight_mut")
def node_weight(E, st, c):
    g, n = base_of(E, st, c.args[0]), E.deep(st, c.args[1])
    return some(S("at", g, n))


@reg("petgraph::Graph::node_count", "petgraph::Graph::edge_count", "petgraph::Graph::is_directed")
def graph_count(E, st, c):
    op = c.path.rsplit("::", 1)[1]
    if op == "is_directed":
        return TRUE
    return S("len", S("raw_nodes" if op == "node_count" else "raw_edges", E.deep(st, c.args[0])))


@reg("petgraph::prelude::NodeIndex::new", "petgraph::graph::NodeIndex::new", "petgraph::graph::EdgeIndex::new", "petgraph::graph::node_index",
     "petgraph::graph::edge_index")
def node_index_new(E, st, c):
    v = E.deep(st, c.args[0])
    if v[0] == "S" and v[1] == "ixof":
        return v[2]
    return S("edgeix" if "dge" in c.path.split("::", 2)[2] else "nodeix", v)


@reg("petgraph::prelude::NodeIndex::index", "petgraph::graph::NodeIndex::index", "petgraph::graph::EdgeIndex::index")
def node_index(E, st, c):
    v = E.deep(st, c.args[0])
    if v[0] == "S" and v[1] in ("nodeix", "edgeix"):
        return v[2]
    return S("ixof", v)


@reg("petgraph::graph::Edge::source", "petgraph::graph::Edge::target", "petgraph::visit::EdgeRef::source", "petgraph::visit::EdgeRef::target")
def edge_end(E, st, c):
    return S(c.path.rsplit("::", 1)[1], E.deep(st, c.args[0]))


@reg("petgraph::Graph::edge_endpoints")
def edge_endpoints(E, st, c):
    v = E.deep(st, c.args[1])
    v = v[2] if v[0] == "S" and v[1] == "edgeix" else S("ixof", v)
    e = S("elem", S("raw_edges", base_of(E, st, c.args[0])), v)
    return some(tup(S("source", e), S("target", e)))


# ------------------------------------------------------------------ misc pure functions
PURE = {
    "rustc_demangle::demangle": "demangle", "rustc_demangle::try_demangle": "try_demangle",
    "stack_sizes::Function::names": "names", "stack_sizes::Function::size": "size", "stack_sizes::Function::stack": "fnstack",
    "std::path::Path::join": "join_path", "std::path::Path::parent": "parent", "std::path::Path::extension": "extension",
    "std::path::Path::file_stem": "file_stem", "std::path::Path::with_extension": "with_extension", "std::path::Path::file_name": "file_name",
    "std::path::Path::display": "pdisplay", "std::path::Path::exists": "exists",
    "std::process::ExitStatus::success": "success", "std::process::ExitStatus::code": "exitcode",
}


def _pure(op):
    def f(E, st, c):
        a = [E.deep(st, x) for x in c.args]
        if op == "pdisplay":
            return a[0]
        return S(op, *a)
    return f


for _k, _v in PURE.items():
    M[_k] = _pure(_v)


@reg("std::ops::Drop::drop", "std::mem::drop", "std::mem::forget")
def m_drop(E, st, c):
    return UNIT


@reg("std::vec::from_elem")
def from_elem(E, st, c):
    v, n = c.args[0], E.load(st, c.args[1])
    if n[0] == "i" and n[1] <= 256:
        return ("V", (v,) * n[1])
    m = new_cont(E, st, c, "Vec")
    record(E, st, m, E.deep(st, v))
    return m


@reg("std::boxed::Box::new_uninit")
def box_uninit(E, st, c):
    """memory of an array under construction (vec! with elements)"""
    cell = ("box", E.ctx(c.fr.id, ("new", c.site, "box"), c.fr.key))
    st = st.copy()
    st.mem[cell] = ("A", "MaybeUninit", 0, (UNIT, ("A", "ManuallyDrop", 0, (S("uninit"),))))
    return [(st, ("R", cell, ()))]


@reg("std::boxed::box_assume_init_into_vec_unsafe")
def box_vec(E, st, c):
    v = E.load(st, c.args[0])
    while isinstance(v, tuple) and v[0] == "A" and v[1] in ("MaybeUninit", "ManuallyDrop"):
        v = v[3][-1]
    return v


@reg("std::boxed::box_new", "std::slice::hack::into_vec")
def box_new(E, st, c):
    return c.args[0] if c.args else S("uninit")


@reg("std::intrinsics::unreachable", "std::hint::unreachable_unchecked")
def m_unreach(E, st, c):
    return []
