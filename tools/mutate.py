#!/usr/bin/env python3
"""mutate.py OUT.jsonl FILE[:first-last]... [--jobs N] [--frac F] [--list]: systematic mutation of library sources (development tool).

Every mutant (one small change) is compiled in a scratch copy of /repo and given to the checks that cover its file, in order,
until one reports a violation; the survivors are what has to be looked at by hand."""
import json, os, re, shutil, subprocess, sys, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
 "src/Vector.c": "C01 C02 C03 C06 C05 C04 C19", "src/List.c": "C07 C08 C03 C05 C04 C19", "src/Bitset.c": "C09 C10 C05 C19 C04",
 "src/String.c": "C11 C12 C13 C14 C15 C05 C19 C04 C27", "src/Format.c": "C16 C17 C12 C05 C19 C26", "src/ArgParse.c": "C18 C05 C19 C03",
 "src/Allocator.c": "C30 C04 C05 C19", "src/Zycore.c": "C26 C25", "src/API/Memory.c": "C24", "src/API/Process.c": "C24", "src/API/Terminal.c": "C24",
 "src/API/Synchronization.c": "C22", "src/API/Thread.c": "C23",
 "include/Zycore/Comparison.h": "C25 C06", "include/Zycore/Zycore.h": "C25", "include/Zycore/Types.h": "C25 C32", "include/Zycore/Status.h": "C25 C19",
 "include/Zycore/Defines.h": "C25 C32", "include/Zycore/Atomic.h": "C21", "include/Zycore/Internal/AtomicGNU.h": "C21", "include/Zycore/LibC.h": "C20 C26 C32",
 "include/Zycore/Vector.h": "C01 C06 C19 C28 C02", "include/Zycore/List.h": "C07 C08 C28", "include/Zycore/String.h": "C11 C13 C15 C12 C28 C27", "include/Zycore/Format.h": "C16", "include/Zycore/Object.h": "C03",
}
NARROW = [] # with --narrow: only narrower types of local variables
def strip(line): return re.sub(r'//.*$|/\*.*?\*/', lambda m: ' ' * len(m[0]), re.sub(r'"(\\.|[^"])*"|\'(\\.|[^\'])*\'', lambda m: '_' * len(m[0]), line))
def mutants(path, lo, hi):
    lines = open(path).read().split("\n"); out = []; comment = False; asserting = False
    for n, l in enumerate(lines):
        s = strip(l)
        if comment:
            if "*/" in l: comment = False
            continue
        if "/*" in s: comment = "*/" not in s; continue
        if not s.strip() or (s.strip().startswith("#") and "define" not in s) or "ZYAN_ASSERT" in s or not (lo <= n + 1 <= hi): continue
        if re.match(r"^(static |ZYCORE_EXPORT|ZYAN_INLINE|ZYAN_REQUIRES)", s) or (re.match(r"^Zyan\w+ \w+\(", s)): continue
        if NARROW:
            for m in re.finditer(r"\b(const )?Zyan([UI])Size(?= \w+(;| +=|,))", s):
                for w in ("8", "16"): out.append((n + 1, l, l[:m.start()] + (m[1] or "") + "Zyan" + m[2] + w + l[m.end():], "Size->" + w))
            continue
        def add(a, b, new, why):
            m = l[:a] + new + l[b:]
            if m != l: out.append((n + 1, l, m, why))
        for rx, subs in ((r"(?<![<>=!&|+\-*/])<(?![<=])", ["<=", "=="]), (r"<=(?!=)", ["<", "=="]), (r"(?<![->])>(?![>=])", [">=", "=="]), (r"(?<![>])>=", [">", "=="]), (r"==", ["!="]), (r"!=", ["=="]),
                         (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"(?<=[ )])\+ 1\b", [""]), (r"(?<=[ )])- 1\b", [""]), (r"(?<=[\w)] )\+(?= [\w(])", ["-"]), (r"(?<=[\w)] )-(?= [\w(])", ["+"]),
                         (r"(?<=[\w)] )\*(?= [\w(])", ["+"]), (r"(?<=[\w)] )/(?= [\w(])", ["*"]), (r"(?<=[\w)] )%(?= [\w(])", ["/"]), (r"\+\+", ["--", ""]), (r"--", ["++", ""]), (r"\+=", ["-=", "="]), (r"-=", ["+=", "="]),
                         (r"<<", [">>"]), (r">>", ["<<"]), (r"(?<=[\w)] )&(?= [\w(~])", ["|"]), (r"(?<=[\w)] )\|(?= [\w(])", ["&"]), (r"\^", ["&"]), (r"~", [""]), (r"!(?=[\w(])", [""]),
                         (r"\bZYAN_TRUE\b", ["ZYAN_FALSE"]), (r"\bZYAN_FALSE\b", ["ZYAN_TRUE"]), (r"\bZYAN_STATUS_TRUE\b", ["ZYAN_STATUS_FALSE"]), (r"\bZYAN_STATUS_FALSE\b", ["ZYAN_STATUS_TRUE"]),
                         (r"\bZYAN_STATUS_SUCCESS\b", ["ZYAN_STATUS_FAILED"]), (r"\bZYAN_STATUS_(?!TRUE\b|FALSE\b|SUCCESS\b)[A-Z_]+\b", ["ZYAN_STATUS_SUCCESS"]),
                         (r"\b(?:ZYAN_)?MIN\b(?=\()", ["ZYAN_MAX"]), (r"\bZYAN_MAX\b(?=\()", ["ZYAN_MIN"]), (r"(?<![\w.])(?:0|1|2|3|7|8|10|16|32)(?![\w.])", None), (r"\bsize\b", ["capacity"]), (r"\bhead\b", ["tail"]), (r"\btail\b", ["head"]), (r"\bprev\b", ["next"]), (r"\bnext\b", ["prev"])):
            for m in re.finditer(rx, s):
                for new in (subs if subs is not None else [str(int(m[0]) + 1)] + ([str(int(m[0]) - 1)] if int(m[0]) > 0 else [])):
                    add(m.start(), m.end(), new, m[0] + "->" + new)
        m = re.match(r"^(\s*)(if|while) \((.*)\)\s*$", s)
        if m:
            a, b = m.start(3), m.end(3); add(a, b, "0", "cond->0")
            if m[2] == "if": add(a, b, "1", "cond->1")
        if re.match(r"^\s+[\w*(].*;\s*$", s) and not re.match(r"^\s*(return|const|static|Zyan\w+\*? |void\*? |char |struct |pthread_\w+ |int |break|continue|typedef|for|while)", s) and s.count("(") == s.count(")"):
            add(0, len(l), "    ;", "statement deleted")
    seen = set(); r = []
    for x in out:
        if (x[0], x[2]) not in seen: seen.add((x[0], x[2])); r.append(x)
    return r
def main():
    args = sys.argv[1:]; out = args.pop(0); jobs, frac, lst, files = 8, 1.0, False, []
    while args:
        a = args.pop(0)
        if a == "--jobs": jobs = int(args.pop(0))
        elif a == "--frac": frac = float(args.pop(0))
        elif a == "--list": lst = True
        elif a == "--narrow": NARROW.append(1)
        else: files.append(a)
    work = []
    for f in files:
        f, _, r = f.partition(":"); lo, hi = (int(x) for x in r.split("-")) if r else (1, 10 ** 9)
        for m in mutants("/repo/" + f, lo, hi): work.append((f,) + m)
    done = set()
    if os.path.exists(out):
        for l in open(out): d = json.loads(l); done.add((d["file"], d["line"], d["new"]))
    work = [w for w in work if (w[0], w[1], w[3]) not in done]
    if lst:
        for w in work: print(f"{w[0]}:{w[1]}: {w[4]}: {w[3].strip()}")
        return print(len(work))
    q = queue.Queue(); [q.put(w) for w in work]; lock = threading.Lock(); fo = open(out, "a"); stat = {}
    import re as _re
    cases = {c: int(_re.search(r"^    (\d+), (\d+), ", open(f"{V}/src/" + [x for x in os.listdir(V + "/src") if x.startswith(c) and x.endswith(".cpp")][0]).read(), _re.M)[1]) for c in {c for f in files for c in CHECKS[f.partition(":")[0]].split()}}
    def worker(k):
        base = f"/tmp/mut/w{k}"; shutil.rmtree(base, ignore_errors=True); os.makedirs(base); shutil.copytree("/repo", base + "/repo", symlinks=True, ignore=shutil.ignore_patterns(".git", "build*"))
        os.makedirs(base + "/verif")
        for x in ("src", "run_check.sh", "KNOWN_FINDINGS.txt"): (shutil.copytree if os.path.isdir(f"{V}/{x}") else shutil.copy)(f"{V}/{x}", base + "/verif/" + x)
        b = base + "/verif/src/build.sh"; t = open(b).read() # harness objects depend on headers only
        t = t.replace('bg $CXX -c "$HERE/src/engine.cpp" -o engine.o', 'cached engine${ARCH32:-}.o $CXX -c "$HERE/src/engine.cpp" -o engine.o').replace('bg $CXX $XFLAGS -c "$src" -o prop.o', 'cached $id${ARCH32:-}.o $CXX $XFLAGS -c "$src" -o prop.o')
        open(b, "w").write(t + '\ncached() { local n="$1" o; shift; for o in "$@"; do :; done; if [ "${HCACHE:-}" ] && [ -f "$HCACHE/$n" ]; then cp "$HCACHE/$n" "$o"; else "$@" && { [ "${HCACHE:-}" ] && mkdir -p "$HCACHE" && cp "$o" "$HCACHE/$n" || true; }; fi; }\n')
        while True:
            try: f, n, old, new, why = q.get_nowait()
            except queue.Empty: break
            p = f"{base}/repo/{f}"; t = open(p).read(); L = t.split("\n"); L[n - 1] = new; open(p, "w").write("\n".join(L)); res = None
            if f.endswith(".c") and subprocess.run(["gcc", "-fsyntax-only", "-w", "-DZYCORE_STATIC_BUILD", f"-I{base}/repo/include", p], stderr=subprocess.DEVNULL).returncode: res = "uncompilable"
            else:
                order = CHECKS[f].split(); early = "C19" if re.search(r"!\w+ \|\||!\w+\)|INVALID_ARGUMENT|cond->", old + why) else "C05" if "ZYAN_CHECK" in old else order[0]
                for c in sorted(order, key=lambda c: (c != order[0] or early == "C19") and c != early):
                    try: r = subprocess.run(["bash", base + "/verif/run_check.sh", c, "quick", "--workers", "1", "--cases", str(max(200, int(cases[c] * frac)))], env=dict(os.environ, REPO=base + "/repo", VERIF_SEED="1", **({"HCACHE": base + "/cache"} if f.endswith(".c") else {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1200)
                    except subprocess.TimeoutExpired: res = c + " timeout"; break
                    if r.returncode == 1: res = c; break
                    if r.returncode: res = "BROKEN " + c + f" rc{r.returncode}"; break
            open(p, "w").write(t); res = res or "SURVIVED"
            with lock: fo.write(json.dumps(dict(file=f, line=n, old=old, new=new, why=why, result=res)) + "\n"); fo.flush()
        shutil.rmtree(base, ignore_errors=True)
    ts = [threading.Thread(target=worker, args=(k,)) for k in range(jobs)]; [t.start() for t in ts]; [t.join() for t in ts]
main()
