"""Pastes the bodies of helpers that contain loops into `run`, so that a loop is found whether it stands there or in a
function called from there."""
from engine import Engine

SKIP = ("dot", "top", "dehash", "is_outlined_function", "wrapper::wrapper", "thumb::analyze", "ir::parse", "main", "run")
LIMIT = 40


def op(o, k):
    return [o[0], place(o[1], k)] if o[0] in ("cp", "mv") else o


def place(p, k):
    return [p[0] + k, [[e[0], e[1] + k] + e[2:] if e[0] == "i" else e for e in p[1]]]


def rvalue(r, k):
    n = r[0]
    if n in ("use", "rep"):
        return [n, op(r[1], k)] + r[2:]
    if n == "ref":
        return [n, r[1], place(r[2], k)]
    if n == "cast":
        return [n, r[1], op(r[2], k)] + r[3:]
    if n == "bin":
        return [n, r[1], op(r[2], k), op(r[3], k)]
    if n == "un":
        return [n, r[1], op(r[2], k)]
    if n == "disc":
        return [n, place(r[1], k)]
    if n == "agg":
        return [n, r[1], [op(o, k) for o in r[2]]]
    return None


def stmt(s, k):
    if s[0] == "=":
        r = rvalue(s[2], k)
        return None if r is None else ["=", place(s[1], k), r] + s[3:]
    if s[0] == "setdisc":
        return ["setdisc", place(s[1], k)] + s[2:]
    if s[0] in ("live", "dead"):
        return [s[0], s[1] + k]
    return s


def term(t, k, d, dest, target):
    """-> (extra statements, terminator)"""
    n = t[0]
    if n == "goto":
        return [], [n, t[1] + d]
    if n == "ret":
        return [["=", dest, ["use", ["mv", [k, []]]], None]], (["goto", target] if target is not None else ["unreach"])
    if n == "drop":
        return [], [n, place(t[1], k), t[2] + d] + t[3:]
    if n == "switch":
        return [], [n, op(t[1], k), [[x[0], x[1] + d] for x in t[2]], None if t[3] is None else t[3] + d] + t[4:]
    if n == "assert":
        return [], [n, op(t[1], k), t[2], t[3] + d] + t[4:]
    if n == "call":
        return [], [n, op(t[1], k), [op(a, k) for a in t[2]], place(t[3], k), None if t[4] is None else t[4] + d] + t[5:]
    if n in ("unreach", "resume"):
        return [], t
    return [], None


def paste(run, blk, callee):
    bb = run["blocks"][blk]
    t = bb["t"]
    if any(a[0] not in ("cp", "mv", "c") for a in t[2]) or len(t[2]) != callee["argc"]:
        return False
    k, d = len(run["locals"]), len(run["blocks"])
    new = []
    for x in callee["blocks"]:
        ss = [stmt(s, k) for s in x["s"]]
        ex, tt = term(x["t"], k, d, t[3], t[4])
        if tt is None or any(s is None for s in ss):
            return False
        ex = [e[:3] + [x["l"]] for e in ex]
        new.append(dict(x, s=ss + ex, t=tt))
    run["locals"] = run["locals"] + callee["locals"]
    run["blocks"] = run["blocks"] + new
    bb["s"] = bb["s"] + [["=", [k + 1 + i, []], ["use", a], bb["l"]] for i, a in enumerate(t[2])]
    bb["t"] = ["goto", d]
    return True


def top_level(j):
    """inline into run, at its top level, the functions whose (transitive) bodies contain loops; idempotent"""
    bodies = {b["key"]: b for b in j["bodies"]}
    run = next((b for b in j["bodies"] if b["path"] == "run" and "#promoted" not in b["key"]), None)
    if run is None or run.get("inlined"):
        return
    run["inlined"] = True
    loopy = {}

    def callee(t):
        if t[0] != "call" or t[1][0] != "c" or t[1][1].get("k") != "fn":
            return None
        c = t[1][1]
        key = c.get("local")
        b = bodies.get(key)
        if b is None or c.get("ga") or b.get("kind") not in ("Fn", "AssocFn") or b["path"] in SKIP:
            return None
        return key

    def has_loop(key, seen=()):
        if key in seen:
            return False
        if key not in loopy:
            E = Engine(j)
            loopy[key] = bool(E.cfg(key)["loops"]) or any(has_loop(c, seen + (key,)) for x in bodies[key]["blocks"] for c in [callee(x["t"])] if c)
        return loopy[key]
    n = 0
    done = False
    while not done and n < LIMIT:
        done = True
        loops = Engine(j).cfg(run["key"])["loops"]
        inside = set().union(*loops.values()) if loops else set()
        for i, x in enumerate(list(run["blocks"])):
            if i in inside or x.get("c"):
                continue
            key = callee(x["t"])
            if key and has_loop(key) and paste(run, i, bodies[key]):
                n += 1
                done = False
                break
