#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: confirm planted bugs in a scratch copy of /repo and store them below /verif/seeded.

SPEC.py defines BUGS: a list of dicts with id, property, edits [(file, old, new)], needs, breaks, demo (C text), optional flags
(compiler flags of the demo) and sh (a whole demo.sh instead)."""
import json, os, re, shutil, subprocess, sys, tempfile
REPO, OUT = "/repo", "/verif/seeded"
ROOT = subprocess.check_output(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]
DEMO_SH = '''#!/bin/sh
# Run in the repository: 0 if the property holds for the demonstrated case.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -r "$t"' EXIT
gcc -g -w -DZYCORE_STATIC_BUILD -Iinclude {flags} "$d/demo.c" {sources} -o "$t/demo" -lpthread || exit 2
timeout 60 "$t/demo"
'''
def sh(cmd, cwd=None, timeout=600): return subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
def suite(repo):
    b = repo + "/_scratch"
    shutil.rmtree(b, ignore_errors=True)
    r = sh(f"CC=gcc CXX=g++ cmake -S . -B {b} -G Ninja -DCMAKE_BUILD_TYPE=Debug -DZYCORE_BUILD_TESTS=ON -DZYCORE_BUILD_EXAMPLES=ON -DCMAKE_REQUIRE_FIND_PACKAGE_GTest=ON -DCMAKE_DISABLE_FIND_PACKAGE_Doxygen=ON && ninja -C {b}", repo)
    if r.returncode: return None, r.stdout[-3000:]
    n, log = 0, ""
    for root, _, files in os.walk(b):
        for f in files:
            p = os.path.join(root, f)
            if f.startswith("Test") and os.access(p, os.X_OK) and not f.endswith((".o", ".cpp", ".cmake")):
                x = sh([p], timeout=120); log += x.stdout
                if x.returncode: return None, x.stdout[-3000:]
                n += len(re.findall(r"\[       OK \]", x.stdout))
    shutil.rmtree(b, ignore_errors=True)
    return n, log
def main():
    spec = {}; exec(open(sys.argv[1]).read(), spec)
    want = sys.argv[2:]
    scratch = tempfile.mkdtemp(prefix="plant."); repo = scratch + "/repo"
    try:
        subprocess.check_call(["git", "clone", "-q", REPO, repo])
        for b in spec["BUGS"]:
            if want and b["id"] not in want: continue
            d = scratch + "/demo"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            if "demo" in b: open(d + "/demo.c", "w").write(b["demo"].lstrip("\n"))
            open(d + "/demo.sh", "w").write(b["sh"].lstrip("\n") if "sh" in b else DEMO_SH.format(flags=b.get("flags", ""), sources=b.get("sources", "src/*.c src/API/*.c")))
            bad = None
            r = sh(["sh", d + "/demo.sh"], repo)
            if r.returncode: bad = f"demo fails on the unchanged tree ({r.returncode}): {r.stdout[-1500:]}"
            touched = False
            for f, old, new in b["edits"]:
                p = os.path.join(repo, f); t = open(p).read()
                if t.count(old) != 1: bad = f"{f}: {t.count(old)} matches"; break
                open(p, "w").write(t.replace(old, new))
            if not bad:
                diff = sh(["git", "diff"], repo).stdout
                for f in {e[0] for e in b["edits"]}:
                    blame = sh(["git", "blame", "-s", "-l", "HEAD", "--", f], repo).stdout.split("\n")
                    for h in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", sh(["git", "diff", "-U0", "--", f], repo).stdout, re.M):
                        a, n = int(h[1]), int(h[2] or 1)
                        lines = blame[a - 1:a - 1 + n] if n else blame[a - 1:a + 1]
                        own = [not l.lstrip("^").startswith(ROOT[:30]) for l in lines]
                        touched |= not all(own) if n else not any(own)
                if not touched: bad = "no original line changed"
            if not bad:
                n, log = suite(repo)
                if n is None or n < 28: bad = f"test suite: {n} {log[-1500:]}"
            if not bad:
                r = sh(["sh", d + "/demo.sh"], repo)
                if r.returncode == 0: bad = "demo passes with the patch: " + r.stdout[-500:]
                elif r.returncode == 2: bad = "demo does not build with the patch: " + r.stdout[-1500:]
                else: print("   demo:", r.returncode, r.stdout.strip().split("\n")[-1][:150])
            sh(["git", "checkout", "-q", "--", "."], repo)
            if bad: print(b["id"], "REJECTED:", bad); continue
            o = os.path.join(OUT, b["id"]); shutil.rmtree(o, ignore_errors=True); shutil.copytree(d, o)
            open(o + "/patch.diff", "w").write(diff)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(o + "/meta.json", "w"), indent=1); open(o + "/meta.json", "a").write("\n")
            print(b["id"], "kept for", b["property"])
    finally:
        shutil.rmtree(scratch)
main()
