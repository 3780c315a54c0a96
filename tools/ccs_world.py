"""Runs the real cargo-call-stack binary on a made-up program.

A scratch directory receives a project, an ELF executable, the object file, the LLVM IR, and a stand-in `cargo` that only
reports the paths; the tool then analyses them.  Nothing outside the scratch directory is touched."""
import os, shutil, struct, subprocess, sys, tempfile

TEXT = 0x1000


def uleb(n):
    out = bytearray()
    while True:
        b = n & 0x7F
        n >>= 7
        out.append(b | (0x80 if n else 0))
        if not n:
            return bytes(out)


class Strtab:
    def __init__(self):
        self.b = bytearray(b"\0")
        self.ix = {"": 0}

    def add(self, s):
        if s not in self.ix:
            self.ix[s] = len(self.b)
            self.b += s.encode() + b"\0"
        return self.ix[s]


def elf32(etype, sections, symbols):
    """sections: [(name, type, flags, addr, data, link, info, entsize)]; symbols: [(name, value, size, info, shndx)]"""
    shstr, st = Strtab(), Strtab()
    symdata = b"\0" * 16
    for name, value, size, info, shndx in symbols:
        symdata += struct.pack("<IIIBBH", st.add(name), value & 0xFFFFFFFF, size, info, 0, shndx)
    n = len(sections)
    secs = [("", 0, 0, 0, b"", 0, 0, 0)] + list(sections)
    secs.append((".symtab", 2, 0, 0, symdata, n + 2, 1, 16))
    secs.append((".strtab", 3, 0, 0, bytes(st.b), 0, 0, 0))
    for s in secs:
        shstr.add(s[0])
    shstr.add(".shstrtab")
    secs.append((".shstrtab", 3, 0, 0, bytes(shstr.b), 0, 0, 0))
    off, body, hdrs = 52, b"", b""
    for name, ty, fl, addr, data, link, info, es in secs:
        while (off + len(body)) % 8:
            body += b"\0"
        o = off + len(body)
        hdrs += struct.pack("<10I", shstr.add(name), ty, fl, addr, o if ty else 0, len(data), link, info, 4 if ty else 0, es)
        body += data
    while (off + len(body)) % 8:
        body += b"\0"
    shoff = off + len(body)
    ident = b"\x7fELF\x01\x01\x01" + b"\0" * 9
    eh = ident + struct.pack("<HHIIIIIHHHHHH", etype, 40, 1, TEXT, 0, shoff, 0x05000200, 52, 0, 0, 40, len(secs), len(secs) - 1)
    return eh + body + hdrs


def ar(members):
    out = b"!<arch>\n"
    for name, data in members:
        out += ("%-16s%-12d%-6d%-6d%-8s%-10d" % (name, 0, 0, 0, "644", len(data))).encode() + b"`\n" + data
        if len(data) % 2:
            out += b"\n"
    return out


FUNC, NOTYPE = 2, 0


class World:
    def __init__(self, target="armv7r-none-eabi"):
        self.target = target
        self.thumb = target.startswith("thumb")
        self.text = b""
        self.syms = []          # (name, value, size, type)
        self.stack = []         # (name, addr, bytes) of the application's object file
        self.cb_stack = []      # of compiler_builtins
        self.undef = []
        self.tags = []
        self.ll = ""
        self.cb_ll = ""
        self.name = "app"
        self.artifact = "example"
        self.cargo_rc = 0
        self.noise = []
        self.markers = True

    def func(self, name, stack=None, code=b"\x70\x47", aliases=(), size=None, cb=False, align=2):
        """place a function; -> its address"""
        while len(self.text) % align:
            self.text += b"\0"
        a = TEXT + len(self.text)
        self.text += code
        v = a | 1 if self.thumb else a
        for n in (name,) + tuple(aliases):
            self.syms.append((n, v, len(code) if size is None else size, FUNC))
        if self.thumb:
            self.tags.append(("$t", a))
        if stack is not None:
            (self.cb_stack if cb else self.stack).append((name, a, stack))
        return a

    def halfwords(self, *hs):
        return b"".join(struct.pack("<H", h) for h in hs)

    def object(self, stack):
        names = [(n, a, 0, FUNC, 1) for n, a, _ in stack] or [("dummy_symbol", 0, 0, FUNC, 1)]
        data, rel = b"", b""
        for i, (n, a, s) in enumerate(stack):
            rel += struct.pack("<II", len(data), ((i + 1) << 8) | 2)
            data += struct.pack("<I", a) + uleb(s)
        secs = [(".text", 1, 6, 0, b"\0" * 4, 0, 0, 0), (".stack_sizes", 1, 0x80, 0, data, 1, 0, 0), (".rel.stack_sizes", 9, 0, 0, rel, 4, 2, 8)]
        return elf32(1, secs, names)

    def exe(self):
        syms = [(n, v, s, t, 1) for n, v, s, t in self.syms]
        syms += [(n, a, 0, NOTYPE, 1) for n, a in self.tags]
        syms += [(n, 0, 0, FUNC, 0) for n in self.undef]
        return elf32(2, [(".text", 1, 6, TEXT, self.text, 0, 0, 0)], syms)

    def run(self, *args, env=(), stdout=subprocess.PIPE, target_flag=True, limit=None):
        d = tempfile.mkdtemp(prefix="ccs-demo-")
        try:
            return self._run(d, args, env, stdout, target_flag, limit)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def files(self, d):
        os.makedirs(d + "/proj/src")
        open(d + "/proj/Cargo.toml", "w").write('[package]\nname = "proj"\nversion = "0.1.0"\n')
        open(d + "/proj/src/lib.rs", "w").write("")
        rel = d + "/proj/target/" + self.target + "/release"
        if self.artifact == "example":
            exe, deps = rel + "/examples/" + self.name, rel + "/examples"
        else:
            exe, deps = rel + "/" + self.name, rel + "/deps"
        os.makedirs(deps)
        open(exe, "wb").write(self.exe())
        stem = deps + "/" + self.name.replace("-", "_") + "-0123456789abcdef"
        open(stem + ".ll", "w").write(self.ll)
        open(stem + ".o", "wb").write(self.object(self.stack))
        open(d + "/cb.ll", "w").write(self.cb_ll)
        open(d + "/cb.rlib", "wb").write(ar([("lib.rmeta/", b"meta"), ("#1/%d" % len(NM), NM.encode() + self.object(self.cb_stack))]))
        os.makedirs(d + "/bin")
        lines = list(self.noise)
        if self.markers:
            lines += ["@CARGO_CALL_STACK:compiler_builtins_rlib_path@" + d + "/cb.rlib", "@CARGO_CALL_STACK:compiler_builtins_ll_path@" + d + "/cb.ll"]
        with open(d + "/bin/cargo", "w") as f:
            f.write("#!/bin/sh\nfor a in \"$@\"; do echo \"$a\" >> %s/cargo-args; done\nenv > %s/cargo-env\n" % (d, d))
            for l in lines:
                f.write("echo '%s' >&2\n" % l)
            f.write("exit %d\n" % self.cargo_rc)
        os.chmod(d + "/bin/cargo", 0o755)

    def _run(self, d, args, env, stdout, target_flag, limit):
        self.files(d)
        e = dict(os.environ)
        for k in ("RUSTC_WRAPPER", "CARGO_CALL_STACK_RUSTC_WRAPPER", "RUST_LOG"):
            e.pop(k, None)
        e["PATH"] = d + "/bin:" + os.path.expanduser("~root/.cargo/bin") + ":" + e.get("PATH", "")
        e["CARGO_CALL_STACK_UNSPPORTED_NIGHTLY"] = "I won't open issues about unsupported toolchains"
        e.update(dict(env))
        cmd = [BIN, "--" + self.artifact, self.name] + (["--target", self.target] if target_flag else []) + list(args)
        out = None
        if limit is not None:
            # the output goes to a file that can only take `limit` bytes
            stdout = out = open(d + "/limited", "w+b")
            cmd = ["sh", "-c", "trap '' XFSZ; exec prlimit --fsize=%d \"$@\"" % limit, "sh"] + cmd
        p = subprocess.run(cmd, cwd=d + "/proj", env=e, stdout=stdout, stderr=subprocess.PIPE, timeout=120)
        r = Result()
        r.rc, r.err = p.returncode, p.stderr.decode()
        r.out = p.stdout.decode() if p.stdout is not None else ""
        r.cargo = open(d + "/cargo-args").read().split("\n")[:-1] if os.path.exists(d + "/cargo-args") else None
        r.env = open(d + "/cargo-env").read() if os.path.exists(d + "/cargo-env") else ""
        return r


NM = "compiler_builtins-abc.cgu.0.o"
BIN = os.path.join(os.getcwd(), "target/debug/cargo-call-stack")


class Result:
    """parsed DOT output: nodes {name: attributes}, edges {(name, name)}"""

    def graph(self):
        import re
        self.nodes, self.edges, ids = {}, [], {}
        self.clusters = []
        for l in self.out.split("\n"):
            m = re.match(r'\s*(\d+) \[label="(.*)"( style=dashed)?\]$', l)
            if m:
                parts = m.group(2).split("\\n")
                at = {"dashed": bool(m.group(3))}
                for x in parts[1:]:
                    k = re.match(r"(max|local) (=|>=) (.*)$", x)
                    at[k.group(1)] = (k.group(2), k.group(3))
                ids[m.group(1)] = parts[0]
                self.nodes[parts[0]] = at
                continue
            m = re.match(r"\s*(\d+) -> (\d+)$", l)
            if m:
                self.edges.append((ids[m.group(1)], ids[m.group(2)]))
            elif "subgraph" in l:
                self.clusters.append([])
            elif self.clusters and re.match(r"\s*(\d+)$", l):
                self.clusters[-1].append(ids[l.strip()])
        return self


def define(name, body="  ret void\n", sig="void", args=""):
    return "define %s @%s(%s) unnamed_addr #0 {\nstart:\n%s}\n\n" % (sig, name, args, body)


def check(cond, msg, r=None):
    if not cond:
        print("FAILED: " + msg)
        if r is not None:
            print(r.out[-3000:])
            print(r.err[-3000:])
        sys.exit(1)
