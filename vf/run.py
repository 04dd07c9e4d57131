#!/usr/bin/env python3
"""run.py check <PROPERTY> [--tier quick|thorough]     decide one property on /repo's current source
   run.py snapshot                                    record the shape (locals, loops) of the functions under contract
"""
import signal
import sys, os, subprocess, importlib, re, json, time, tempfile, shutil, concurrent.futures as cf, threading
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(ROOT, "contracts"))
import astindex, prelude
import unit as U

SNAP = os.path.join(ROOT, "contracts", "snapshots.json")
KNOWN = os.path.join(ROOT, "known-findings.json")


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------------------------------------ verus
def run_verus(path, extra, timeout):
    cmd = ["verus", path, "--output-json", "--time", "--num-threads", "4"] + extra
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        out, err = [x.decode(errors="replace") for x in p.communicate(timeout=max(1, timeout))]
        rc = p.returncode
    except subprocess.TimeoutExpired as e:
        # the solver processes are children of the verifier: end the whole session
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        out, err, rc = "", "TIMEOUT after %ds" % timeout, 124
    try:
        js = json.loads(out[out.index("{"):])
    except Exception:
        js = {}
    return {"cmd": " ".join(cmd), "rc": rc, "err": err, "js": js, "wall": time.time() - t}


def line_map(text):
    """line number -> (kind, name) of the generated item"""
    m, cur = [], ("spec", "specs")
    for ln in text.split("\n"):
        if ln.startswith("// ---- FUNCTION "):
            cur = ("fn", ln.split()[3])
        elif ln.startswith("// ---- STUB "):
            cur = ("stub", ln.split()[3])
        elif ln.startswith("// ---- VAC "):
            cur = ("vac", ln.split()[3])
        elif cur[0] in ("spec", "lemma"):
            g = re.match(r"\s*(?:#\[.*\]\s*)?(?:pub )?(?:broadcast )?(?:open |closed |uninterp )?(?:proof|spec) fn (\w+)", ln)
            if g:
                cur = ("lemma", g.group(1))
        m.append(cur)
    return m


def parse_errors(err, text, fname):
    """list of {item, kind, msg, line, cxx}"""
    lm = line_map(text)
    lines = text.split("\n")
    res = []
    blocks = re.split(r"\n(?=(?:error|warning|note)(?:\[[^\]]*\])?:)", "\n" + err)
    for b in blocks:
        b = b.strip("\n")
        if not b.startswith("error") or b.startswith("error: aborting"):
            continue
        first = b.split("\n")[0]
        # prefer the line of the failing item within our file
        locs = [int(x) for x in re.findall(re.escape(fname) + r":(\d+):\d+", b)]
        ln = locs[0] if locs else None
        # "at the end of the function body"/secondary spans give the function; use last span in a fn
        item = lm[ln - 1] if ln and ln <= len(lm) else ("?", "?")
        span_lines = [int(x) for x in re.findall(r"^\s*(\d+)\s*[|/]", b, re.M)]
        cxx = None
        for k in [ln] + span_lines[::-1]:
            if k and k <= len(lines):
                j = k - 1
                while j >= 0 and not lines[j].startswith("// ----"):
                    g = re.search(r"/\*@(\d+)\*/", lines[j])
                    if g:
                        cxx = int(g.group(1))
                        break
                    j -= 1
            if cxx:
                break
        code = "error[" in first
        verif = (not code) and re.search(r"(postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|"
                                         r"possible arithmetic underflow/overflow|possible division by zero|decreases not satisfied|"
                                         r"could not prove termination|recommendation not met|possible bit shift underflow/overflow|"
                                         r"loop ensures not satisfied|loop must have|unreachable|assert_by_compute|constructed value may fail)", first)
        rl = "Resource limit" in b or "rlimit" in first
        kind = "rlimit" if rl else ("verify" if verif else "compile")
        res.append({"item": item[1], "itemkind": item[0], "kind": kind, "msg": first, "line": ln, "cxx": cxx, "text": b[:1800]})
    return res


class UnitRun:
    def __init__(self, unit, workdir, tier, snaps, deadline=None, stop=None):
        self.built = threading.Event()
        self.deadline = deadline or time.time() + 480
        self.stop = stop or threading.Event()     # a failing input is already known: no second opinions needed
        self.u, self.wd, self.tier = unit, workdir, tier
        self.snap = snaps.get(unit.name, {})
        self.failed, self.undecided = {}, {}
        self.verified, self.cmds, self.smt_ms, self.total = [], [], 0, 0
        self.errors = []
        self.vac = {}
        self.notes = []

    def apply_snapshot(self):
        """map renamed locals of the current code onto the names the contracts use"""
        for c in self.u.contracts:
            s = self.snap.get(c.rust)
            rep = self.u.report.get(c.rust)
            if not s or not rep or rep["status"] != "extracted":
                continue
            cur = [tuple(x) for x in rep["locals"]]
            old = [tuple(x) for x in s["locals"]]
            cn, on = [n for n, _ in cur], [n for n, _ in old]
            missing = [(n, t) for n, t in old if n not in cn]
            new = [(n, t) for n, t in cur if n not in on]
            ren = {}
            for n, t in missing:
                for j, (m, mt) in enumerate(new):
                    if mt == t:
                        ren[m] = n
                        new.pop(j)
                        break
            if ren:
                c.rename_locals = ren
                self.notes.append("%s: locals renamed %s" % (c.rust, ren))
        return any(c.rename_locals for c in self.u.contracts)

    def go(self):
        try:
            return self.go2()
        finally:
            self.built.set()

    def go2(self):
        u = self.u
        t0 = time.time()
        try:
            bodies = u.build(self.wd)
            if self.apply_snapshot():
                bodies = u.build(self.wd)
        except astindex.ExtractError as e:
            for c in u.contracts:
                self.undecided[c.rust] = "extraction: " + str(e)
            return self
        self.built.set()
        for c in u.contracts:
            rep = u.report[c.rust]
            if rep["status"] != "extracted":
                self.undecided[c.rust] = rep["status"] + ": " + str(rep.get("error"))
        stub = set()
        fname = u.name + ".rs"
        path = os.path.join(self.wd, fname)
        for attempt in range(12):
            bs = [b for b in bodies if b[0].rust not in stub]
            text = u.emit(bs)
            open(path, "w").write(text)
            r = run_verus(path, [], min(260, self.left()))
            self.cmds.append(r["cmd"])
            if r["rc"] == 124:
                r = self.piecewise(path, bs, text, fname)
            errs = parse_errors(r["err"], text, fname)
            comp = [e for e in errs if e["kind"] == "compile"]
            js = r["js"].get("verification-results", {})
            if r["rc"] == 124:
                self.notes.append("verus timed out")
                for b in bs:
                    self.undecided[b[0].rust] = "verifier timeout"
                self.total = self.nver = 0
                break
            if (comp or not js) and not js.get("verified"):
                # an annotation (or construct) that does not fit the current code: drop that function, keep the others
                bad = {e["item"] for e in comp if e["itemkind"] == "fn"}
                if not bad:
                    for b in bs:
                        self.undecided[b[0].rust] = "verifier front end: " + (comp[0]["msg"] if comp else r["err"][-500:])
                    self.notes.append("verus could not process the unit: " + r["err"][-1500:])
                    self.total = 0
                    break
                for n in bad:
                    stub.add(n)
                    self.undecided[n] = "annotation does not fit: " + [e["msg"] for e in comp if e["item"] == n][0]
                continue
            self.total = js.get("verified", 0) + js.get("errors", 0)
            self.smt_ms = r["js"].get("times-ms", {}).get("smt", {}).get("total", 0) if isinstance(r["js"].get("times-ms", {}).get("smt"), dict) else 0
            self.nver = js.get("verified", 0)
            bad = {}
            for e in errs:
                if e["kind"] in ("verify", "rlimit", "compile"):
                    bad.setdefault((e["itemkind"], e["item"]), []).append(e)
            # a second opinion with other seeds and a larger budget before anything is called failed
            retry = sorted({n for (k, n) in bad})
            if retry:
                keep = {}
                bad_of = lambda n: [e for (k, m), es in bad.items() if m == n for e in es]
                def again(n):
                    last = bad_of(n)
                    for seed, rl in ((7, 40), (23, 60)):
                        if self.stop.is_set() or self.left() < 5:
                            break
                        # the crate root module is verified function by function
                        rr = run_verus(path, ["--verify-root", "--verify-function", n, "--rlimit", str(rl),
                                              "--smt-option", "smt.random_seed=%d" % seed], min(90, self.left()))
                        if rr["rc"] == 124:
                            continue
                        e2 = parse_errors(rr["err"], text, fname)
                        j2 = rr["js"].get("verification-results", {})
                        if rr["rc"] == 0 and j2.get("verified", 0) > 0 and not j2.get("errors"):
                            return n, None
                        last = e2
                    return n, last
                with cf.ThreadPoolExecutor(4) as ex:
                    for n, e2 in ex.map(again, retry):
                        if e2 is None:
                            self.notes.append("%s verified on a second run with another solver seed" % n)
                            self.nver += 1
                        else:
                            keep[n] = e2
                for (k, n), es in bad.items():
                    if n in keep:
                        es2 = [e for e in keep[n]] or es
                        if all(e["kind"] == "rlimit" for e in es2):
                            self.undecided[n] = "solver resource limit"
                        else:
                            self.failed[n] = [e for e in es2 if e["kind"] != "rlimit"]
            for b in bs:
                n = b[0].rust
                if n not in self.failed and n not in self.undecided:
                    self.verified.append(n)
            # structural drift: annotations that no longer attach make a failed proof undecided, not a violation
            for n in list(self.failed):
                why = self.drift(n)
                if why:
                    self.undecided[n] = "annotations no longer fit the code (%s)" % why
                    self.errors += self.failed.pop(n)
            # lemma failing: machinery, unless a function failed as well
            fnames = {c.rust for c in u.contracts}
            for n in list(self.failed):
                if n not in fnames:
                    self.undecided[n] = "lemma: " + self.failed[n][0]["msg"]
                    self.errors += self.failed.pop(n)
            # vacuity guard
            if not self.failed and bs and self.left() > 30:
                vt = u.emit(bs, vac=True)
                vp = os.path.join(self.wd, u.name + "_vac.rs")
                open(vp, "w").write(vt)
                rr = run_verus(vp, ["--verify-root", "--verify-function", "*__vac", "--multiple-errors", "0", "--rlimit", "5"], min(300, self.left() + 30))
                ve = parse_errors(rr["err"], vt, u.name + "_vac.rs")
                got = {e["item"] for e in ve if e["itemkind"] == "vac"}
                vj = rr["js"].get("verification-results", {})
                want = [b[0].rust for b in bs if not (b[0].throws and "false" in b[0].ensures)]
                self.vac = {"expected_failures": len(want), "failed_as_expected": len(set(want) & got),
                            "vacuous": sorted(set(want) - got) if (vj or ve) else ["?"]}
            break
        self.wall = time.time() - t0
        return self

    def left(self):
        return self.deadline - time.time()

    def piecewise(self, path, bs, text, fname):
        """the run over the whole unit did not end: verify function by function, so that one obligation does not hide the others"""
        errs, ok, wall = [], 0, time.time()
        lm = [n for n in dict.fromkeys(x for x in line_map(text) if x[0] == "lemma")]
        names = [b[0].rust for b in bs] + [n for _, n in lm if re.search(r"proof fn %s\b" % re.escape(n), text)]
        def f1(n):
            if self.left() < 3:
                return n, None
            return n, run_verus(path, ["--verify-root", "--verify-function", n], min(45, self.left()))
        err = ""
        with cf.ThreadPoolExecutor(6) as ex:
            for n, r in ex.map(f1, names):
                if r is None or r["rc"] == 124:
                    self.undecided[n] = "verifier timeout"
                    continue
                v = r["js"].get("verification-results", {})
                if r["rc"] == 0:
                    ok += 1
                elif v:
                    err += "\n" + r["err"]
                else:
                    self.undecided[n] = "verifier error"
        self.notes.append("the run over the whole unit timed out; verified function by function")
        return {"cmd": "verus %s (function by function)" % path, "rc": 1 if err else 0, "err": err, "wall": time.time() - wall,
                "js": {"verification-results": {"verified": ok, "errors": len(names) - ok}}}

    def drift(self, n):
        s, rep = self.snap.get(n), self.u.report.get(n)
        if not s or not rep or rep.get("status") != "extracted":
            return None
        w = []
        if rep["loops"] != s["loops"]:
            w.append("%d loops, %d when annotated" % (rep["loops"], s["loops"]))
        if set(rep["unused_hints"]) - set(s["unused_hints"]):
            w.append("hints without anchor: %s" % sorted(set(rep["unused_hints"]) - set(s["unused_hints"])))
        if rep["missing_loops"]:
            w.append("loops gone")
        on = {x[0] for x in s["locals"]}
        cn = {x[0] for x in rep["locals"]}
        if on - cn:
            w.append("locals gone: %s" % sorted(on - cn))
        return "; ".join(w)


# ------------------------------------------------------------------------------------------------ harness
def build_harness(src, wd, san=True):
    exe = os.path.join(wd, os.path.basename(src)[:-4] + ("_s" if san else "_p"))
    cmd = ["clang++"] + astindex.FLAGS + ["-O1", "-g1", "-I" + os.path.join(ROOT, "harness")]
    if san:
        cmd += ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
    cmd += [src, "-o", exe]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        return None, p.stdout.decode(errors="replace")[-3000:]
    return exe, " ".join(cmd)


def run_harness(exe, seed, budget, lits, deep, extra=()):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096:handle_abort=0", UBSAN_OPTIONS="print_stacktrace=0")
    cmd = [exe, "--seed=%d" % seed, "--budget=%g" % budget] + (["--deep"] if deep else []) + (["--lits=" + ",".join(map(str, lits))] if lits else []) + list(extra)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=budget * 6 + 240)
    except subprocess.TimeoutExpired as e:
        return {"fail": None, "stats": {}, "err": "harness timed out", "cmd": " ".join(cmd)}
    o = p.stdout.decode(errors="replace")
    fail = [l for l in o.split("\n") if l.startswith("FAIL ")]
    known = [l for l in o.split("\n") if l.startswith("KNOWN ")]
    st = [l for l in o.split("\n") if l.startswith("STATS ")]
    stats = {}
    if st:
        try:
            stats = json.loads(st[-1][6:])
        except Exception:
            pass
    err = ""
    if not fail and not st:
        err = "harness ended with status %d: %s" % (p.returncode, (o[-300:] + p.stderr.decode(errors="replace")[-1200:]))
        # a crash of the code under test that the handlers could not intercept
        if p.returncode < 0 or "Sanitizer" in p.stderr.decode(errors="replace"):
            fail = ["FAIL (crash) :: " + p.stderr.decode(errors="replace")[-600:].replace("\n", " | ")]
    return {"fail": fail[0] if fail else None, "stats": stats, "err": err, "known": known,
            "detail": p.stderr.decode(errors="replace")[-2500:], "cmd": " ".join(cmd)}


def literals(runs):
    """integer literals of the code under contract: candidate boundary values"""
    try:
        return sorted({l for r in runs for c in getattr(r.u, "report", {}).values() for l in c.get("literals", []) if l < 2 ** 63})[:200]
    except Exception:
        return []


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import props
    P = props.PROPS[pid]
    wd = tempfile.mkdtemp(prefix="vf_%s_" % pid)
    rc = 1
    try:
        rc = check2(pid, P, tier, seed, wd, t0)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    return rc


def check2(pid, P, tier, seed, wd, t0):
    snaps = json.load(open(SNAP)) if os.path.exists(SNAP) else {}
    known = json.load(open(KNOWN)) if os.path.exists(KNOWN) else {"findings": []}
    units = []
    for mod, names in P["units"]:
        m = importlib.import_module(mod)
        for u in m.units():
            if names is None or u.name in names:
                units.append(u)
    runs = []
    hb = {}
    def hbuild():
        for h in P.get("harness", []):
            src = os.path.join(ROOT, "harness", h)
            hb[h] = build_harness(src, wd)
    hfirst, stop = {}, threading.Event()
    base = P.get("budget", 12)
    def hrun():
        # the bounded stand-in / witness search runs next to the proof, first with its base budget
        hbuild()
        for r in uruns:
            r.built.wait(300)
        lits = literals(uruns)
        for h in P.get("harness", []):
            exe, cmd = hb[h]
            if exe is not None:
                hfirst[h] = run_harness(exe, seed, base / max(1, len(P["harness"])), lits, False)
                if hfirst[h]["fail"]:
                    stop.set()
    deadline = t0 + (480 if tier == "quick" else 900)
    uruns = [UnitRun(u, os.path.join(wd, u.name), tier, snaps, deadline, stop) for u in units]
    th = threading.Thread(target=hrun)
    th.start()
    with cf.ThreadPoolExecutor(3) as ex:
        runs = list(ex.map(lambda r: r.go(), uruns))
    th.join()
    extra_evidence = {}
    failed, undecided, verified = {}, {}, []
    for r in runs:
        for k, v in r.failed.items():
            failed[r.u.name + "/" + k] = v
        for k, v in r.undecided.items():
            undecided[r.u.name + "/" + k] = v
        verified += [r.u.name + "/" + x for x in r.verified]
    lits = literals(runs)
    proof_ok = not failed and not undecided
    # bounded stand-in / witness search on the real code
    budget = base if proof_ok else max(60, base * 4)
    if tier == "thorough":
        budget = max(budget, 240)
    hres, evals, distinct, samples = [], 0, 0, []
    witness = None
    for h in P.get("harness", []):
        exe, cmd = hb[h]
        if exe is None:
            hres.append({"harness": h, "error": "does not compile: " + cmd})
            continue
        r = hfirst[h]
        if not stop.is_set() and (tier == "thorough" or not proof_ok):
            # deeper: the proof does not decide everything on its own (or the tier asks for it)
            r0, r = r, run_harness(exe, seed, budget / max(1, len(P["harness"])), lits, True)
            evals += r0["stats"].get("evaluations", 0)
        hres.append({"harness": h, "evaluations": r["stats"].get("evaluations", 0), "error": r["err"], "cmd": r["cmd"]})
        evals += r["stats"].get("evaluations", 0)
        distinct += r["stats"].get("distinct_nontrivial", 0)
        samples += r["stats"].get("samples", [])
        for k in r.get("known") or []:
            hres[-1].setdefault("known", []).append(k)
        if r["fail"] and witness is None:
            witness = (h, r["fail"], r["detail"], r["cmd"])
    # ---------------- verdict
    violations = 0
    out_dir = os.path.join(ROOT, "evidence")
    os.makedirs(out_dir, exist_ok=True)
    replay = os.path.join(out_dir, "%s.replay.txt" % pid)
    line = None
    obl = lambda d: "\n".join("OBLIGATION %s: %s (C++ line %s)\n%s\n" % (k, e["msg"], e["cxx"], e["text"]) for k, v in d.items() for e in v)
    kf = []
    if witness:
        violations = 1
        with open(replay, "w") as f:
            f.write("property %s: failing input on the real code\nharness %s (clang++ %s)\n%s\ncommand: %s\n\n%s\n\n%s\n\nundecided: %s\n" % (
                pid, witness[0], " ".join(astindex.FLAGS), witness[1], witness[3], witness[2], obl(failed), json.dumps(undecided, indent=1)))
        line = "VIOLATION property=%s replay=%s" % (pid, replay)
    elif failed:
        violations = 1
        with open(replay, "w") as f:
            f.write("property %s: the verifier no longer accepts these obligations; no failing input was found in %d executions\n\n%s\n" % (pid, evals, obl(failed)))
        line = "VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay)
    for fnd in known.get("findings", []):
        if fnd.get("property") == pid and fnd.get("status") == "open":
            kf.append("KNOWN-FINDING: property=%s %s" % (pid, fnd["what"]))
    # ---------------- evidence
    nobl = sum(r.total for r in runs)
    ndis = sum(getattr(r, "nver", 0) for r in runs)
    bounded = sorted(P.get("bounded", [])) + ["%s (%s)" % (k, v) for k, v in sorted(undecided.items())]
    trusted = list(prelude.TRUSTED) + [t for r in runs for t in r.u.trusted]
    vac = {r.u.name: r.vac for r in runs}
    vacuous = [u + "/" + x for u, v in vac.items() for x in v.get("vacuous", [])]
    scan = []
    for r in runs:
        p = os.path.join(r.wd, r.u.name + ".rs")
        if os.path.exists(p):
            t = open(p).read()
            t2 = t[t.index("any_bool()"):] if "any_bool()" in t else t
            for kw in ("assume(", "admit()", "external_body", "assume_specification", "axiom fn", "uninterp"):
                n = t2.count(kw)
                if n:
                    scan.append("%s: %d x %s" % (r.u.name, n, kw))
    ev = {
        "property": pid, "tier": tier, "seed": seed,
        "level": P.get("level", "proof"),
        "coverage": {
            "obligations": nobl, "discharged": ndis,
            "checker_cmd": "; ".join(sorted({re.sub(r"/tmp/vf_\w+/", "$WORK/", c) for r in runs for c in r.cmds})),
            "trusted_base": sorted(set(trusted)),
            "obligation_unit": "one Verus query group (all VCs of one function or lemma)",
            "functions_under_contract": sorted(verified),
            "not_proved_this_run": undecided,
            "failed_obligations": {k: [e["msg"] for e in v] for k, v in failed.items()},
            "no_termination_proof": sorted({x for r in runs for x in r.u.no_termination}),
            "helpers_inlined_from_source": sorted({x for r in runs for x in r.u.inlined}),
            "clauses": {r.u.name: {"requires": sum(len(c.requires) for c in r.u.contracts), "ensures": sum(len(c.ensures) for c in r.u.contracts),
                                   "loops": sum(len(c.loops) for c in r.u.contracts)} for r in runs},
            "back_end": "Verus -> Z3 (bundled)", "verifier_wall_s": round(sum(getattr(r, "wall", 0) for r in runs), 1),
            "vacuity_guard": vac, "assumption_scan": scan,
            "bounded_stand_ins": bounded,
            "evaluations": evals, "distinct_nontrivial": distinct,
            "rule": "bounded stand-in on the real headers (ASan+UBSan build): exhaustive small ranges, boundary values, literals of the code, then seeded random; see harness/" + ",".join(P.get("harness", [])),
            "samples": samples[:6],
            "harness": hres, "notes": [n for r in runs for n in r.notes],
        },
        "assumptions": list(P.get("assumptions", [])) + sorted(set(trusted)) + (["VACUOUS: " + ", ".join(vacuous)] if vacuous else []),
        "wall_s": round(time.time() - t0, 1), "violations": violations,
    }
    with open(os.path.join(out_dir, "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1)
    log("property %s [%s]: %d obligations, %d discharged; %d functions proved; %d undecided; %d executions of the real code; %.0f s" % (
        pid, tier, nobl, ndis, len(verified), len(undecided), evals, time.time() - t0))
    for k, v in sorted(undecided.items()):
        log("UNDECIDED %s: %s" % (k, v[:300]))
    for h in hres:
        if h.get("error"):
            log("HARNESS %s: %s" % (h["harness"], h["error"][:600]))
    if vacuous:
        log("VACUOUS %s" % vacuous)
    for n in [n for r in runs for n in r.notes]:
        log("note: " + n[:400])
    for k in kf:
        log(k)
    if witness:
        log(witness[1])
    if line:
        for k in failed:
            log("FAILED obligation %s: %s" % (k, failed[k][0]["msg"]))
        log(line)
        return 1
    return 0


def snapshot(only=None):
    import props
    snaps = json.load(open(SNAP)) if os.path.exists(SNAP) and only else {}
    mods = sorted({m for P in props.PROPS.values() for m, _ in P["units"]})
    wd = tempfile.mkdtemp(prefix="vf_snap_")
    for m in mods:
        if only and m not in only:
            continue
        for u in importlib.import_module(m).units():
            u.build(os.path.join(wd, u.name))
            d = {}
            for c in u.contracts:
                r = u.report[c.rust]
                if r["status"] != "extracted":
                    log("not extracted:", u.name, c.rust, r)
                    continue
                d[c.rust] = {"locals": r["locals"], "loops": r["loops"], "unused_hints": r["unused_hints"]}
            snaps[u.name] = d
    shutil.rmtree(wd, ignore_errors=True)
    json.dump(snaps, open(SNAP, "w"), indent=0, sort_keys=True)


if __name__ == "__main__":
    if sys.argv[1] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in sys.argv:
            tier = sys.argv[sys.argv.index("--tier") + 1]
        try:
            sys.exit(check(sys.argv[2], tier))
        except SystemExit:
            raise
        except BaseException as e:
            import traceback
            traceback.print_exc()
            log("machinery error, nothing decided: %r" % e)
            sys.exit(2)
    elif sys.argv[1] == "selftest":
        # setup: nothing has to be built in advance (every check extracts and compiles from /repo on its own)
        for tool in ("verus", "clang++"):
            if not shutil.which(tool):
                log("missing tool: " + tool)
                sys.exit(1)
        log("tools present")
    elif sys.argv[1] == "snapshot":
        snapshot(sys.argv[2:])
