#!/usr/bin/env python3
"""planted bugs (development tool, used by no check)
   seed.py make            write seeded/<id>/ from tools/seeds_*.py for every id that is not there yet
   seed.py verify [ids]    confirm: builds, stable tests pass, demo 0 without / nonzero with the patch
   seed.py catch [ids]     run the property's check against the patched tree
Both work on scratch copies bind-mounted over /repo in a private mount namespace."""
import sys, os, json, subprocess, shutil, glob, difflib, concurrent.futures as cf, re, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/seedsc"
DEMO = r'''#!/bin/bash
# run in the repository root after the build
d="$(cd "$(dirname "$0")" && pwd)"; t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
clang++ -stdlib=libc++ -std=gnu++14 -pthread -O1 -w @SAN@ -fms-extensions -fms-compatibility -fms-compatibility-version=19.30 -U_MSC_VER -fno-delayed-template-parsing \
  -include "$d/gnuc_macros.h" -include utility -Iinclude -Iexperimental/include "$d/demo.cpp" src/algorithm/math/*.cpp -o "$t/demo" || exit 3
cd "$t" && timeout 100 "$t/demo"
'''


def load():
    S = {}
    for f in sorted(glob.glob(os.path.join(ROOT, "tools", "seeds_*.py"))):
        g = {}
        exec(open(f).read(), g)
        for s in g["SEEDS"]:
            assert s["id"] not in S, s["id"]
            S[s["id"]] = s
    return S


def make(force=()):
    S = load()
    for i, s in S.items():
        d = os.path.join(ROOT, "seeded", i)
        if os.path.exists(d) and i not in force:
            continue
        diff = ""
        byfile = {}
        for f, old, new in s["edits"]:
            cur = byfile.get(f) or open("/repo/" + f, newline="", encoding="latin-1").read()
            if cur.count(old) != 1:      # mixed line endings
                m = re.search("\r?\n".join(re.escape(x) for x in old.split("\n")), cur)
                if m:
                    if "\r\n" in m.group(0):
                        new = new.replace("\n", "\r\n")
                    old = m.group(0)
            n = cur.count(old)
            if n != 1:
                print("!!", i, f, "occurrences:", n, repr(old[:60])); byfile = None; break
            byfile[f] = cur.replace(old, new)
        if byfile is None:
            continue
        for f, new in byfile.items():
            a = open("/repo/" + f, newline="", encoding="latin-1").read()
            sp = lambda x: [l + "\n" for l in x.split("\n")[:-1]] + ([x.split("\n")[-1]] if x.split("\n")[-1] else [])
            dl = list(difflib.unified_diff(sp(a), sp(new), "a/" + f, "b/" + f))
            for l in dl:
                diff += l if l.endswith("\n") else l + "\n\\ No newline at end of file\n"
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w", newline="", encoding="latin-1").write(diff)
        open(os.path.join(d, "demo.cpp"), "w").write(s["demo"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("@SAN@", s.get("san", "")))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        shutil.copy(os.path.join(ROOT, "vf", "gnuc_macros.h"), d)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        r = subprocess.run(["git", "-C", "/repo", "apply", "--check", os.path.join(d, "patch.diff")], capture_output=True)
        print("made", i, "applies" if r.returncode == 0 else r.stderr.decode())


def ids(args):
    a = args or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    out = []
    for x in a:
        if os.path.isdir(os.path.join(ROOT, "seeded", x)):
            out.append(x)
        else:
            out += [y for y in sorted(os.listdir(os.path.join(ROOT, "seeded"))) if y.startswith(x) or json.load(open(os.path.join(ROOT, "seeded", y, "meta.json")))["property"] == x]
    return out


def scratch(i):
    d = os.path.join(SC, i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(SC, exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    return d


def ns(d, cmd, env=None, timeout=900):
    return subprocess.run(["unshare", "-m", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (d, cmd)], capture_output=True, timeout=timeout, env=env)


def verify1(i):
    d = scratch(i)
    s = os.path.join(ROOT, "seeded", i)
    try:
        r0 = ns(d, "bash %s/demo.sh" % s)
        r = ns(d, "git apply %s/patch.diff" % s)
        if r.returncode:
            return i, "does not apply"
        r1 = ns(d, "bash /opt/vp/test.sh %s.json" % d)
        base = json.load(open("/opt/vp/BASELINE.json"))
        base = base["stable"]
        res = json.load(open(d + ".json"))
        passed = set(res["passed"])
        lost = sorted(set(base) - passed)
        r2 = ns(d, "bash %s/demo.sh" % s)
        ok = r0.returncode == 0 and r2.returncode not in (0, 3) and not lost
        return i, ("OK" if ok else "BAD") + " demo0=%d demo1=%d lost=%s %s" % (r0.returncode, r2.returncode, lost[:5], (r0.stderr + r2.stderr)[-300:].decode() if not ok else "")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def catch1(i, tree=None):
    d = scratch(i)
    s = os.path.join(ROOT, "seeded", i)
    pid = json.load(open(os.path.join(s, "meta.json")))["property"]
    v = os.path.join(SC, i + "_verif")
    shutil.rmtree(v, ignore_errors=True)
    try:
        ns(d, "git apply %s/patch.diff" % s)
        subprocess.run("mkdir -p %s && cd %s && cp -a vf contracts harness known-findings.json %s/" % (v, ROOT, v), shell=True, check=True)
        t = time.time()
        r = ns(d, "cd %s && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 vf/run.py check %s --tier quick" % (v, pid))
        o = r.stdout.decode()
        l = [x for x in o.split("\n") if x.startswith(("VIOLATION", "FAIL", "FAILED"))]
        return i, "%s rc=%d %.0fs %s" % ("CAUGHT" if r.returncode == 1 and any(x.startswith("VIOLATION property=" + pid) for x in l) else "MISSED", r.returncode, time.time() - t,
                                      " | ".join(x[:170] for x in l) if l else o[-300:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(v, ignore_errors=True)


if __name__ == "__main__":
    c, a = sys.argv[1], sys.argv[2:]
    if c == "make":
        make(a)
    else:
        with cf.ThreadPoolExecutor(3 if c == "verify" else 2) as ex:
            for i, m in ex.map(verify1 if c == "verify" else catch1, ids(a)):
                print(i, m, flush=True)
