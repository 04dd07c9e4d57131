import sys, os, subprocess, importlib, re, json, time
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "..", "contracts"))
import unit as U
def main():
    mod = sys.argv[1]
    m = importlib.import_module(mod)
    args = sys.argv[2:]
    only = [a for a in args if not a.startswith("-")]
    for u in m.units():
        if only and u.name not in only and not any(o in u.name for o in only):
            continue
        wd = "/tmp/vfdev/" + u.name
        t0 = time.time()
        bodies = u.build(wd)
        for r, rep in u.report.items():
            if rep["status"] != "extracted" or rep["unused_hints"] or rep["missing_loops"]:
                print(r, {k: v for k, v in rep.items() if k in ("status", "error", "unused_hints", "missing_loops")})
        txt = u.emit(bodies)
        p = os.path.join(wd, u.name + ".rs")
        open(p, "w").write(txt)
        if "-n" in args: print(p); continue
        t1 = time.time()
        cmd = ["verus", p, "--num-threads", "8"] + [a for a in args if a.startswith("--")]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = r.stdout.decode()
        print(u.name, "extract %.1fs verus %.1fs" % (t1 - t0, time.time() - t1))
        if "-l" in args:
            print(out)
            continue
        import re as _re
        nerr = 0
        for b in _re.split(r"\n(?=(?:error|warning|note)(?:\[[^\]]*\])?:)", out):
            if b.startswith("error") and "aborting" not in b:
                nerr += 1
                if nerr > 12: continue
                ls = b.split("\n")
                src = [l for l in ls[1:] if _re.match(r"\s*\d+ \|", l) or "^" in l or "---" in l]
                print(ls[0][:160]); print("\n".join(x[:230] for x in src[:7]))
        print(_re.findall(r"verification results.*", out) or out[-600:])
main()
