"""Confirms planted bugs in a scratch copy of /repo and stores them under seeded/.

usage: python3 tools/seed.py SPEC.py [--tests] [id...]   (SPEC.py: list SEEDS of dicts id, property, file, edits, demo, needs, breaks)"""
import importlib.util, json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/ccs-scratch"


def sh(cmd, cwd=SC, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def build():
    return sh(". /opt/vp/env.sh; cd %s && cargo test --workspace --no-run --offline" % SC)


def tests():
    fw = SC + "/firmware/target"
    shutil.rmtree(fw, ignore_errors=True)
    r = sh(". /opt/vp/env.sh; cd %s && cargo test --workspace --no-fail-fast --offline -- --test-threads 1" % SC)
    base = set(x.split("::")[-1] for x in json.load(open("/opt/vp/BASELINE.json"))["stable"])
    import re
    fails = [l.split()[1] for l in r.stdout.split("\n") if re.match(r"test \S+ \.\.\. FAILED", l)]
    n = len([l for l in r.stdout.split("\n") if re.match(r"test \S+ \.\.\. ok", l)])
    bad = [f for f in fails if f.split("::")[-1] in base]
    return bad or ([] if n >= 41 else ["only %d passed" % n])


def main():
    spec = importlib.util.spec_from_file_location("spec", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    want = [a for a in sys.argv[2:] if not a.startswith("--")]
    if not os.path.exists(SC):
        subprocess.run(["cp", "-a", "/repo", SC], check=True)
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q FETCH_HEAD")
    for s in m.SEEDS:
        if want and s["id"] not in want:
            continue
        d = os.path.join(VERIF, "seeded", s["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copy(os.path.join(VERIF, "tools/ccs_world.py"), d)
        open(d + "/demo.py", "w").write("from ccs_world import *\n" + s["demo"])
        open(d + "/demo.sh", "w").write('#!/bin/sh\nexec python3 "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        sh("git checkout -q -- .")
        ok = True
        for f, old, new in s["edits"]:
            p = os.path.join(SC, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "EDIT MATCHES", t.count(old), repr(old[:60]))
                ok = False
                break
            open(p, "w").write(t.replace(old, new))
        if not ok:
            shutil.rmtree(d)
            continue
        open(d + "/patch.diff", "w").write(sh("git diff").stdout)
        b = build()
        if b.returncode:
            print(s["id"], "DOES NOT BUILD\n" + b.stdout[-1500:])
            shutil.rmtree(d)
            continue
        r = sh("sh %s/demo.sh" % d)
        bad = tests() if "--tests" in sys.argv else None
        sh("git checkout -q -- .")
        build()
        r0 = sh("sh %s/demo.sh" % d)
        good = r.returncode != 0 and r0.returncode == 0 and not bad
        print(s["id"], "OK" if good else "BAD", "patched rc=%d" % r.returncode, "clean rc=%d" % r0.returncode, "tests:", bad if bad else "passed" if bad is not None else "not run", flush=True)
        if not good:
            print(r.stdout[-1500:] if r.returncode == 0 else "", r0.stdout[-1500:] if r0.returncode else "")
            shutil.rmtree(d)


main()
