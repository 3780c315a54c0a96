"""Builds the rustc driver (../mirdump), dumps the MIR of /repo's crate and loads it.

Nothing of the analysed crate is executed: `cargo check` runs the front end only."""
import json, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CCS_REPO", "/repo")


def _run(cmd, cwd, env):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def _env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO") and k != "CARGO_HOME" or k in (
            "RUSTC", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "RUSTUP_TOOLCHAIN", "MIRDUMP_OUT",
        ):
            del e[k]
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def driver():
    d = os.path.join(VERIF, "mirdump")
    exe = os.path.join(d, "target", "debug", "mirdump")
    src = max(os.path.getmtime(os.path.join(d, "src", "main.rs")), os.path.getmtime(os.path.join(d, "Cargo.toml")))
    if os.path.exists(exe) and os.path.getmtime(exe) >= src:
        return exe
    rc, out = _run(["cargo", "+nightly", "build", "--offline", "--quiet"], d, _env())
    if rc != 0 or not os.path.exists(exe):
        raise RuntimeError("cannot build the MIR driver:\n" + out)
    os.utime(exe)
    return exe


class CompileError(Exception):
    pass


def dump(keep=None):
    """MIR of every body of the crate in REPO, as a dict; raises CompileError if it does not build."""
    exe = driver()
    env = _env()
    rc, sysroot = _run(["rustc", "+nightly", "--print", "sysroot"], VERIF, env)
    sysroot = sysroot.strip()
    tmp = tempfile.mkdtemp(prefix="ccs-mir-")
    try:
        out = os.path.join(tmp, "mir.json")
        env.update(
            LD_LIBRARY_PATH=sysroot + "/lib",
            MIRDUMP_OUT=out,
            RUSTC_WORKSPACE_WRAPPER=exe,
            RUSTFLAGS="-Zallow-features=proc_macro_diagnostic -Awarnings",
            CARGO_TARGET_DIR=os.path.join(tmp, "target"),
        )
        rc, log = _run(["cargo", "+nightly", "check", "--offline", "--bins", "--manifest-path",
                        os.path.join(REPO, "Cargo.toml")], REPO, env)
        if rc != 0 or not os.path.exists(out):
            raise CompileError(log[-4000:])
        if keep:
            shutil.copy(out, keep)
        with open(out) as f:
            return json.load(f)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def load():
    p = os.environ.get("CCS_MIR_JSON")  # development only: reuse a dump
    if p:
        with open(p) as f:
            return json.load(f)
    return dump()


def norm(path):
    """`std::option::Option::<T>::map` -> `std::option::Option::map`; `<impl str>` -> `str`."""
    out, i, n = [], 0, len(path)
    while i < n:
        c = path[i]
        if c == "<":
            depth, j = 0, i
            while j < n:
                if path[j] == "<":
                    depth += 1
                elif path[j] == ">" and path[j - 1] != "-":
                    depth -= 1
                    if depth == 0:
                        break
                j += 1
            inner = path[i + 1:j]
            if inner.startswith("impl "):
                t = inner[5:]
                t = t.split(" for ")[-1]
                out.append(re.sub(r"<.*>", "", t))
            elif i == 0:
                out.append("<" + inner + ">")
            else:
                if out and out[-1].endswith("::"):
                    out[-1] = out[-1][:-2]
                elif len(out) >= 2 and out[-1] == ":" and out[-2] == ":":
                    out.pop(); out.pop()
            i = j + 1
        else:
            out.append(c)
            i += 1
    return "".join(out)


if __name__ == "__main__":
    dump(keep=sys.argv[1])
    for p in ["std::option::Option::<T>::map", "core::str::<impl str>::len", "core::slice::<impl [T]>::iter",
              "std::collections::HashMap::<K, V, S, A>::get", "<Local as std::convert::Into<Max>>::into",
              "petgraph::Graph::<N, E, Ty, Ix>::add_edge", "anyhow::error::<impl anyhow::Error>::msg"]:
        print(p, "->", norm(p))
