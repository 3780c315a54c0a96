SEEDS = [
 dict(id="S01-max-of-lower-bound", property="C01", edits=[("src/main.rs", "(Max::Exact(lhs), Max::LowerBound(rhs)) => Max::LowerBound(cmp::max(lhs, rhs)),", "(Max::Exact(lhs), Max::LowerBound(rhs)) if lhs < rhs => Max::LowerBound(rhs),\n        (Max::Exact(lhs), Max::LowerBound(_)) => Max::Exact(lhs),")],
  needs="an exact bound that is larger than a later lower bound among the callees",
  breaks="the maximum of an exact bound and a smaller lower bound is reported as exact although the unknown callee may use more",
  demo='''
w = World()
w.func("main", stack=8); w.func("big", stack=64); w.func("small", stack=4); w.undef.append("ext")
w.ll = define("main", "  call void @big()\\n  call void @small()\\n  ret void\\n") + define("big") + define("small", "  call void @ext()\\n  ret void\\n") + "declare void @ext()\\n"
for order in (0, 1):
    r = w.run().graph()
    check(r.nodes["main"]["max"][0] == ">=", "the bound of main must be a lower bound", r)
    check(r.nodes["main"]["max"][1] == "72", "the bound of main is 72", r)
    w.ll = w.ll.replace("  call void @big()\\n  call void @small()\\n", "  call void @small()\\n  call void @big()\\n")
'''),
 dict(id="S02-struct-signature", property="C07", edits=[("src/ir/ty.rs", "(Self::Struct(l0), Self::Struct(r0)) => l0 == r0,", "(Self::Struct(l0), Self::Struct(r0)) => l0.iter().zip(r0).all(|(l, r)| l == r),")],
  needs="a call through a function pointer taking a struct by value and a function whose struct parameter is longer",
  breaks="struct types of different length are considered compatible when one is a prefix of the other",
  demo='''
w = World()
w.func("main", stack=8); w.func("short", stack=16); w.func("long", stack=128)
w.ll = (define("main", "  call void %0({ i32, i32 } %x)\\n  ret void\\n") + define("short", args="{ i32, i32 } %a") + define("long", args="{ i32, i32, i32 } %a"))
r = w.run().graph()
fp = [n for n in r.nodes if n.endswith("*")]
check(("main", "void ({i32, i32 })*") in r.edges or ("main", "void ({i32, i32})*") in r.edges, "main calls through the pointer", r)
check(r.nodes["main"]["max"] == ("=", "24"), "only the function of the same type can be called", r)
'''),
 dict(id="S03-dot-edges-swapped-cycle", property="C17", edits=[("src/main.rs", "        for node in cycle {\n            writeln!(stdout, \"        {}\", node.index())?;\n        }", "        for node in cycle.iter().take(8) {\n            writeln!(stdout, \"        {}\", node.index())?;\n        }")],
  needs="a recursion cycle of more than eight functions",
  breaks="members of a large cycle are left out of its cluster",
  demo='''
w = World()
n = 11
for i in range(n):
    w.func("f%d" % i, stack=0)
w.ll = "".join(define("f%d" % i, "  call void @f%d()\\n  ret void\\n" % ((i + 1) % n)) for i in range(n))
r = w.run().graph()
check(len(r.clusters) == 1 and len(r.clusters[0]) == n, "all members of the cycle are in the cluster", r)
'''),
 dict(id="S04-top-lists-unknown", property="C18", edits=[("src/main.rs", "    for node in nodes.iter() {\n        let name", "    for node in nodes.iter().filter(|n| !(n.dashed && n.max.is_none())) {\n        let name")],
  needs="a program without any stack usage information that calls through a function pointer",
  breaks="function pointer nodes are dropped from the listing when no cumulative usage was computed",
  demo='''
w = World()
w.func("main"); w.func("callee")
w.ll = define("main", "  call void %0(i32 %x)\\n  ret void\\n") + define("callee", args="i32 %a")
r = w.run("--format", "top")
check("0 void (i32)*" in r.out, "the function pointer is listed", r)
check(r.out.count("\\n") == 5, "all nodes are listed", r)
'''),
 dict(id="S05-top-io-error", property="C21", edits=[("src/main.rs", "        writeln!(escaper, \"{}\", name).ok();\n        escaper.error?;", "        if writeln!(escaper, \"{}\", name).is_err() && escaper.error.is_ok() {\n            break;\n        }")],
  needs="the output device fails while the name of a function is written",
  breaks="a write error while listing functions is ignored and the tool reports success",
  demo='''
w = World()
for i in range(300):
    w.func("some_function_with_a_long_name_%d" % i, stack=8)
w.ll = define("some_function_with_a_long_name_0")
for fmt in ("top", "dot"):
    r = w.run("--format", fmt)
    check(r.rc == 0 and r.out.count("\\n") >= 302, "everything is listed", r)
    n = len(r.out)
    check(n > 6000, "long output")
    for cut in (n - 1, n - 5, n - 40, 6000):
        r = w.run("--format", fmt, limit=cut)
        check(r.rc != 0, "%s: an output device with room for %d of %d bytes makes the tool fail" % (fmt, cut, n), r)
'''),
]
