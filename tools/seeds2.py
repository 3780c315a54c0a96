BL = '''
def bl(at, to):
    off = to - (at + 4)
    s, i1, i2 = (off >> 24) & 1, (off >> 23) & 1, (off >> 22) & 1
    return [0xF000 | s << 10 | (off >> 12) & 0x3FF, 0xD000 | (1 - (i1 ^ s)) << 13 | (1 - (i2 ^ s)) << 11 | (off >> 1) & 0x7FF]


def bcond(at, to, cond=0):
    off = to - (at + 4)
    return [0xF000 | ((off >> 20) & 1) << 10 | cond << 6 | (off >> 12) & 0x3F, 0x8000 | ((off >> 18) & 1) << 13 | ((off >> 19) & 1) << 11 | (off >> 1) & 0x7FF]
'''
SEEDS = [
 dict(id="S06-recursive-callee-ignored", property="C02", edits=[("src/main.rs", "                    g.neighbors_directed(inode, Direction::Outgoing)\n                        .map(|neighbor|", "                    g.neighbors_directed(inode, Direction::Outgoing)\n                        .filter(|n| !cycles.last().map_or(false, |c: &Vec<NodeIndex>| c.contains(n)))\n                        .map(|neighbor|")],
  needs="a program with a recursion cycle whose caller is handled before the next cycle is found",
  breaks="the usage of a recursive callee is left out of the bound of its caller",
  demo='''
w = World()
w.func("main", stack=8); w.func("leaf", stack=4); w.func("rec", stack=64)
w.ll = define("main", "  call void @rec()\\n  call void @leaf()\\n  ret void\\n") + define("leaf") + define("rec", "  call void @rec()\\n  ret void\\n")
r = w.run().graph()
check(r.nodes["rec"]["max"] == (">=", "64"), "the recursive function has a lower bound", r)
check(r.nodes["main"]["max"] == (">=", "72"), "main includes its recursive callee", r)
'''),
 dict(id="S07-self-recursion-order", property="C03", edits=[("src/main.rs", "                    .any(|n| n == first);", "                    .next() == Some(first);")],
  needs="a function that calls itself and afterwards another function",
  breaks="self recursion is only noticed when the self call is the call that was recorded last",
  demo='''
for body in ("  call void @main()\\n  call void @leaf()\\n", "  call void @leaf()\\n  call void @main()\\n"):
    w = World()
    w.func("main", stack=8); w.func("leaf", stack=4); w.func("pp", stack=0); w.func("qq", stack=0)
    w.ll = define("main", body + "  ret void\\n") + define("leaf") + define("pp", "  call void @qq()\\n  ret void\\n") + define("qq", "  call void @pp()\\n  ret void\\n")
    r = w.run().graph()
    check(len(r.clusters) == 2, "both cycles are found", r)
    check(r.nodes["main"]["max"] == (">=", "12"), "main is recursive, its bound is a lower bound", r)
'''),
 dict(id="S08-start-loses-self-call", property="C04", edits=[("src/main.rs", "                    g2.add_edge(caller2, callee2, ());", "                    if caller2 != callee2 {\n                        g2.add_edge(caller2, callee2, ());\n                    }")],
  needs="a start point from which a function that calls itself is reachable",
  breaks="calls of functions to themselves are dropped from the restricted graph, so that its bounds become exact",
  demo='''
w = World()
w.func("main", stack=8); w.func("rec", stack=16); w.func("unrelated", stack=16)
w.ll = define("main", "  call void @rec()\\n  ret void\\n") + define("rec", "  call void @rec()\\n  ret void\\n") + define("unrelated", "  call void @main()\\n  ret void\\n")
r = w.run("main").graph()
check(set(r.nodes) == {"main", "rec"}, "only what is reachable remains", r)
check(("rec", "rec") in r.edges, "the self call remains", r)
check(r.nodes["main"]["max"] == (">=", "24"), "the bound is a lower bound", r)
'''),
 dict(id="S09-nothing-after-trap", property="C05", edits=[("src/main.rs", '"llvm.trap" => continue,', '"llvm.trap" => break,')],
  needs="a function with calls in basic blocks that are written after the block that traps",
  breaks="the calls behind a trap instruction are ignored although they are in other basic blocks",
  demo='''
w = World()
w.func("main", stack=8); w.func("first", stack=4); w.func("second", stack=64)
w.ll = define("main", "  call void @first()\\n  br label %bb1\\nbad:\\n  tail call void @llvm.trap()\\n  unreachable\\nbb1:\\n  call void @second()\\n  ret void\\n") + define("first") + define("second") + "declare void @llvm.trap() #1\\n"
r = w.run().graph()
check(set(r.edges) == {("main", "first"), ("main", "second")}, "both calls are edges", r)
check(r.nodes["main"]["max"] == ("=", "72"), "bound of main", r)
'''),
 dict(id="S10-first-matching-type", property="C06", edits=[("src/main.rs", "                            indirect.callers.insert(caller);\n", "                            indirect.callers.insert(caller);\n                            break;\n")],
  needs="two functions whose signatures differ but are both compatible with an opaque pointer in a call",
  breaks="an indirect call is only connected to one of the compatible signatures",
  demo='''
for k in range(6):
    w = World()
    w.func("main", stack=8); w.func("aa", stack=16); w.func("bb", stack=64); w.func("cc", stack=32)
    w.ll = define("main", "  call void %0(ptr %x)\\n  ret void\\n") + define("aa", args="i8* %a") + define("bb", args="i32* %a") + define("cc", args="ptr %a")
    r = w.run().graph()
    reach = {b for f in r.nodes if r.nodes[f]["dashed"] and ("main", f) in r.edges for a, b in r.edges if a == f}
    check(reach == {"aa", "bb", "cc"}, "all functions of compatible type can be called", r)
'''),
 dict(id="S11-call-of-llvm-routine", property="C08", edits=[("src/ir/define.rs", "    Ok((i, Stmt::DirectCall(name.0)))", "    if name.0.starts_with(\"llvm.mem\") && i.contains(\"volatile\") {\n        return Ok((i, Stmt::Other));\n    }\n    Ok((i, Stmt::DirectCall(name.0)))")],
  needs="a volatile memory copy somewhere in the program, in the text behind other copies",
  breaks="calls of the memory intrinsics are taken for something else when the rest of the text mentions a volatile access",
  demo='''
w = World()
w.func("main", stack=8); w.func("memcpy", stack=16); w.func("other", stack=4)
w.ll = define("main", "  tail call void @llvm.memcpy.p0i8.p0i8.i32(i8* %0, i8* %1, i32 8, i1 false)\\n  ret void\\n") + define("memcpy") + define("other", "  %1 = load volatile i32, i32* %0\\n  ret void\\n") + "declare void @llvm.memcpy.p0i8.p0i8.i32(i8*, i8*, i32, i1)\\n"
r = w.run().graph()
check(r.edges == [("main", "memcpy")], "the copy may call memcpy", r)
'''),
 dict(id="S12-llvm-like-declaration", property="C09", edits=[("src/ir/item.rs", 'name.starts_with("llvm.")', 'name.starts_with("llvm")')],
  needs="a function of another language whose name begins with llvm, and an indirect call of its type",
  breaks="the signature of a declared function with such a name is dropped",
  demo='''
w = World()
w.func("main", stack=8); w.func("llvm_hook", stack=64)
w.ll = define("main", "  call void %0(i32 %x)\\n  ret void\\n") + "declare void @llvm_hook(i32) unnamed_addr #1\\n"
r = w.run().graph()
check(("void (i32)*", "llvm_hook") in r.edges, "the function can be called through the pointer", r)
check("?" not in r.nodes, "all functions have a type", r)
'''),
 dict(id="S13-array-length-narrow", property="C10", edits=[("src/ir/ty.rs", "Ok((i, Type::Array(count, Box::new(ty))))", "Ok((i, Type::Array(count & 0xffff, Box::new(ty))))")],
  needs="an array type with 65536 elements or more in the type of a function",
  breaks="long arrays are read with another length",
  demo='''
w = World()
w.func("main", stack=8); w.func("small", stack=4); w.func("large", stack=64)
w.ll = define("main", "  call void %0([4 x i8]* %x)\\n  ret void\\n") + define("small", args="[4 x i8]* %a") + define("large", args="[65540 x i8]* %a")
r = w.run().graph()
check(("void ([4 x i8]*)*", "small") in r.edges, "the function of this type is called", r)
check(r.nodes["main"]["max"] == ("=", "12"), "and only that one", r)
'''),
 dict(id="S14-code-behind-literals", property="C11", edits=[("src/thumb.rs", "                    // skip the data section\n                    let end = tag.0;", "                    // skip the data section\n                    let end = tag.0.max(address + bytes.len() as u32);")],
  needs="a function with a literal pool in its middle and a call behind it",
  breaks="the code behind a literal pool inside a function is not walked",
  demo=BL + '''
w = World(target="thumbv7m-none-eabi")
callee = w.func("callee", stack=0, code=w.halfwords(0x4770))
a = callee + 4
code = [0xB580, 0xE001, 0x1234, 0x5678] + bl(a + 8, callee) + [0xBD80]
while (0x1000 + len(w.text)) < a:
    w.text += b"\\0"
assert w.func("main", stack=8, code=w.halfwords(*code)) == a
w.tags += [("$d", a + 4), ("$t", a + 8)]
w.ll = define("main") + define("callee")
r = w.run().graph()
check(("main", "callee") in r.edges, "the call behind the literal pool is an edge", r)
'''),
 dict(id="S15-vpush-all", property="C12", edits=[("src/thumb.rs", "                // A7.7.249      VPUSH - T2\n                modifies_sp = true;\n\n                let imm8 = second[0] & 0b1111_1111;", "                // A7.7.249      VPUSH - T2\n                modifies_sp = true;\n\n                let imm8 = second[0] & 0b0001_1111;")],
  needs="an instruction that pushes all 32 single precision registers",
  breaks="the 128 bytes such an instruction pushes are counted as none",
  demo='''
for n in (1, 16, 31, 32):
    w = World(target="thumbv7m-none-eabi")
    w.func("main", stack=0, code=w.halfwords(0x4770))
    w.func("save", code=w.halfwords(0xB580, 0xED2D, 0x0A00 | n, 0x4770))
    w.ll = define("main") + define("save")
    r = w.run().graph()
    check(r.nodes["save"]["local"] == ("=", str(8 + 4 * n)), "%d registers use %d bytes" % (n, 4 * n), r)
'''),
 dict(id="S16-far-conditional-branch", property="C13", edits=[("src/thumb.rs", "sign_extend(imm21, 21)", "sign_extend(imm21, 20)")],
  needs="a conditional branch to a function more than 512 KiB away",
  breaks="the displacement of far conditional branches gets the wrong sign",
  demo=BL + '''
w = World(target="thumbv7m-none-eabi")
w.func("first", stack=0, code=w.halfwords(0x4770, 0xBF00))
a = 0x1000 + len(w.text)
b = a + 8 + 700000
w.func("main", stack=0, code=w.halfwords(*(bcond(a, b) + [0x4770, 0xBF00])))
w.text += b"\\0" * (b - 0x1000 - len(w.text))
assert w.func("far", stack=0, code=w.halfwords(*(bcond(b, 0x1000, 1) + [0x4770, 0xBF00]))) == b
w.ll = define("main") + define("far") + define("first")
r = w.run().graph()
check(("main", "far") in r.edges and ("far", "first") in r.edges, "branches in both directions are edges", r)
'''),
 dict(id="S17-branch-to-neighbour", property="C14", edits=[("src/main.rs", "if addr >= address && addr < (address + size) {", "if addr >= address && addr <= (address + size) {")],
  needs="a tail call to the function that directly follows",
  breaks="a branch to the first byte behind the function is taken for a branch inside it",
  demo='''
w = World(target="thumbv7m-none-eabi")
w.func("main", stack=0, code=w.halfwords(0xBF00, 0xE7FF))
w.func("next", stack=8, code=w.halfwords(0xB580, 0xBD80))
w.ll = define("main") + define("next")
r = w.run().graph()
check(("main", "next") in r.edges, "the tail call is an edge", r)
check(r.nodes["main"]["max"] == ("=", "8"), "bound of main", r)
'''),
 dict(id="S18-asm-understated", property="C15", edits=[("src/main.rs", "if *llvm_stack != stack && fns_containing_asm.contains(&canonical_name) {", "if *llvm_stack != stack && *llvm_stack == 0 && fns_containing_asm.contains(&canonical_name) {"), ("src/main.rs", "                            // in all other cases our results should match\n\n                            assert_eq!(\n                                *llvm_stack, stack,", "                            // in all other cases our results should match\n\n                            assert!(\n                                stack >= *llvm_stack,")],
  needs="a function with inline assembly that pushes registers and that has a stack frame of its own",
  breaks="the compiler's figure is kept for functions with a frame and inline assembly that pushes",
  demo='''
w = World(target="thumbv7m-none-eabi")
w.func("main", stack=8, code=w.halfwords(0xB580, 0xB40F, 0xB004, 0xBD80))
w.ll = define("main", '  tail call void asm sideeffect "push {r0-r3}", ""() #1\\n  ret void\\n')
r = w.run()
check(r.rc == 0, "the analysis goes on", r)
r.graph()
check(r.nodes["main"]["local"] == ("=", "24"), "the assembly's pushes are counted", r)
'''),
 dict(id="S19-canonical-name-of-aliases", property="C16", edits=[("src/main.rs", "            if let Some(needle) = names.iter().find(|name| stack_sizes.contains_key(&***name)) {", "            if let Some(needle) = names.iter().take(2).find(|name| stack_sizes.contains_key(&***name)) {")],
  needs="a function with three names of which only the last one has a recorded stack usage",
  breaks="the name whose stack usage is known is not chosen and the usage of the function becomes unknown",
  demo='''
w = World()
w.func("main", stack=8)
a = w.func("aaa", aliases=("bbb", "ccc"))
w.stack.append(("ccc", a, 24))
w.ll = define("main", "  call void @aaa()\\n  ret void\\n") + define("ccc")
r = w.run().graph()
check(set(r.nodes) == {"main", "ccc"}, "the node has the name with the stack usage", r)
check(r.nodes["main"]["max"] == ("=", "32"), "the usage is known", r)
'''),
 dict(id="S22-artifact-of-other-program", property="C24", edits=[("src/main.rs", "format!(\"{}-\", file.replace('-', \"_\"))", "file.replace('-', \"_\")")],
  needs="another program whose name begins with the name of the analysed one and that was built later",
  breaks="the intermediate code of another program is analysed",
  demo='''
import time
w = World()
w.func("main", stack=8); w.func("leaf", stack=4)
w.ll = define("main", "  call void @leaf()\\n  ret void\\n") + define("leaf")
files = w.files
def more(d):
    files(d)
    deps = d + "/proj/target/" + w.target + "/release/examples"
    stem = deps + "/" + w.name + "_extra-fedcba9876543210"
    open(stem + ".ll", "w").write(define("main") + define("leaf", "  call void @main()\\n  ret void\\n"))
    open(stem + ".o", "wb").write(w.object(w.stack))
    t = time.time() + 100
    os.utime(stem + ".ll", (t, t))
w.files = more
r = w.run().graph()
check(r.edges == [("main", "leaf")], "the requested program is analysed", r)
'''),
 dict(id="S21-build-killed", property="C20", edits=[("src/main.rs", "    if !status.success() {", "    if status.code().map_or(false, |code| code != 0) {")],
  needs="a build that is ended by a signal, with the products of an earlier build still there",
  breaks="the tool analyses stale artefacts and reports success although the build did not finish",
  demo='''
w = World()
w.func("main", stack=8)
w.ll = define("main")
r = w.run()
check(r.rc == 0, "a successful build is analysed", r)
for sig in ("KILL", "TERM"):
    w = World()
    w.func("main", stack=8)
    w.ll = define("main")
    files = w.files
    def killed(d):
        files(d)
        t = open(d + "/bin/cargo").read()
        open(d + "/bin/cargo", "w").write(t + "\\n")
        lines = t.rstrip("\\n").split("\\n")
        lines[-1] = "kill -%s $$" % sig
        open(d + "/bin/cargo", "w").write("\\n".join(lines) + "\\n")
    w.files = killed
    r = w.run()
    check(r.rc != 0 and "digraph" not in r.out, "a build that did not finish is a failure", r)
'''),
 dict(id="S20-wrapper-extern", property="C19", edits=[("src/wrapper.rs", "let mut split = arg.splitn(2, '=');\n                    let name = split.next().unwrap(); // cannot fail\n                    let path = split.next();\n\n                    extern_crates", "let mut split = arg.split('=');\n                    let name = split.next().unwrap(); // cannot fail\n                    let path = split.next();\n\n                    extern_crates")],
  needs="a target directory whose path contains an equals sign",
  breaks="the path of the support library is cut off at the equals sign",
  demo='''
d = tempfile.mkdtemp(prefix="ccs-demo-")
try:
    with open(d + "/rustc", "w") as f:
        f.write("#!/bin/sh\\nfor a in \\"$@\\"; do echo \\"$a\\" >> %s/args; done\\nexit 7\\n" % d)
    os.chmod(d + "/rustc", 0o755)
    for path in ("/x/libcompiler_builtins-1.rlib", "/a=b/libcompiler_builtins-1.rlib"):
        if os.path.exists(d + "/args"):
            os.unlink(d + "/args")
        args = ["--crate-name", "core", "--extern", "noprelude:compiler_builtins=" + path, "-C", "opt-level=3"]
        e = dict(os.environ); e["CARGO_CALL_STACK_RUSTC_WRAPPER"] = "1"
        p = subprocess.run([BIN, d + "/rustc"] + args, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        check(p.returncode == 7, "the exit code of the compiler is passed on: %r" % (p,))
        check(p.stderr.decode().split("\\n")[:-1] == ["@CARGO_CALL_STACK:compiler_builtins_rlib_path@" + path], "the library is reported: %r" % p.stderr)
        check(open(d + "/args").read().split("\\n")[:-1] == ["-Zemit-stack-sizes"] + args, "the arguments are passed on")
finally:
    shutil.rmtree(d)
'''),
]
