#!/usr/bin/python3
"""Driver of the symbolic checks.  vp.py setup | check <ID> [--tier quick|thorough] | replay <ID> <file>

A check rebuilds the harness of one property together with /repo's current source to LLVM IR,
runs the symbolic executor (engine/, deciding with Z3) on every entry point, replays what it
reports on the natively compiled binary, and writes evidence/<ID>.json."""
import fcntl, json, os, re, resource, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from checks.props import P as CHECKS
REPO = "/repo"
BUILD = os.path.join(V, ".build")
REPLAYS = os.path.join(V, ".replays")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true")


def run(cmd, cwd=V, env=None, timeout=None):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def fatal(msg, out=""):
    print("NO-ANSWER " + msg)
    if out:
        print("\n".join(out.splitlines()[-40:]))
    sys.exit(2)


def build_engine():
    r = run(["cargo", "build", "--release", "--offline", "--target-dir", BUILD + "/engine"], cwd=V + "/engine")
    if r.returncode:
        fatal("the symbolic executor does not build", r.stdout)
    return BUILD + "/engine/release/symx"


def build_harness(feature):
    rt = BUILD + "/vp_rt.o"
    r = run(["gcc", "-O1", "-c", V + "/rt/vp_rt.c", "-o", rt])
    if r.returncode:
        fatal("gcc", r.stdout)
    env = dict(ENV, CARGO_TARGET_DIR=BUILD + "/shadow", RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp")
    for f in ("lib.rs", "main.rs"):
        os.utime(V + "/shadow/src/" + f)
    d = BUILD + "/shadow/release/deps"
    if os.path.isdir(d):
        for f in os.listdir(d):
            if re.match(r"vp-[0-9a-f]+\.(ll|d)$", f):
                os.remove(d + "/" + f)
    r = run(["cargo", "rustc", "--release", "--offline", "--features", feature, "--bin", "vp", "--", "--emit=llvm-ir,link", "-C", "link-arg=" + rt], cwd=V + "/shadow", env=env)
    if r.returncode:
        fatal("the harness does not build against /repo", r.stdout)
    ll = [d + "/" + f for f in os.listdir(d) if re.match(r"vp-[0-9a-f]+\.ll$", f)]
    ll.sort(key=os.path.getmtime)
    ir, exe = "%s/%s.ll" % (BUILD, feature), "%s/%s.bin" % (BUILD, feature)
    os.replace(ll[-1], ir)
    subprocess.check_call(["cp", BUILD + "/shadow/release/vp", exe])
    return ir, exe


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def native(exe, entry, vals, tag, timeout=20, trace=False):
    """Runs the compiled harness on one concrete assignment; returns (outcome, message, observations, text)."""
    p = "%s/in-%d-%s.txt" % (BUILD, os.getpid(), tag)
    with open(p, "w") as f:
        f.write("".join("%d\n" % v for _, v in vals))
    scratch = tempfile.mkdtemp(prefix="vp.")  # files the code writes go here
    env = dict(ENV, VP_REPLAY=p, RUST_BACKTRACE="0", VP_DIR=scratch)
    if trace:
        env["VP_TRACE"] = "1"
    try:
        r = subprocess.run([exe, entry], env=env, cwd=scratch, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=limits)
    except subprocess.TimeoutExpired as e:
        return "hang", "", [], (e.stdout or b"").decode("utf8", "replace")
    finally:
        os.remove(p)
        shutil.rmtree(scratch, ignore_errors=True)
    t = r.stdout.decode("utf8", "replace")
    obs = re.findall(r"^VP_OBS (\d+)$", t, re.M)
    ok = re.findall(r"^VP_PANICOK (\d)$", t, re.M)
    if r.returncode == 99:
        return "assert", re.findall(r"^VP_FAIL (.*)$", t, re.M)[-1], obs, t
    if r.returncode == 97:
        return "assume", "", obs, t
    if r.returncode == 96:
        return "badinput", "", obs, t
    if r.returncode == 0 and "VP_DONE" in t:
        return "done", "", obs, t
    if ok and ok[-1] == "1":
        return "panic_ok", "", obs, t
    return "panic", (re.findall(r"panicked at [^\n]*\n[^\n]*|memory allocation[^\n]*|overflowed its stack", t) or ["exit %d" % r.returncode])[-1].replace("\n", " "), obs, t


def findings():
    known, p = {}, V + "/known_findings.txt"
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(C\d+) label=\[(.*?)\] (.*)$", line.strip())
            if m:
                known.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return known


def check(pid, tier):
    t0 = time.time()
    c = CHECKS[pid]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(V + "/evidence", exist_ok=True)
    lock = open(BUILD + "/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    symx = build_engine()
    ir, exe = build_harness(pid.lower())
    t_build = time.time() - t0
    entries = list(c["entries"])
    if tier == "thorough":
        entries += c.get("deep", [])
    known = findings().get(pid, {})
    deadline = t0 + c["budget"].get(tier, 300 if tier == "quick" else 780)
    tot = dict(paths=0, assumed=0, panics_ok=0, incomplete=0, insts=0, decides=0, forks=0, asserts=0, fast=0, queries=0, sat=0, unsat=0, unknown=0, ztime=0.0)
    why, reach, fns, per_entry, errs = {}, {}, set(), [], []
    viols, unconfirmed, samples_out, hits, validated, mismatched = [], [], [], {}, 0, []
    for i, e in enumerate(entries):
        name, opts = (e, {}) if isinstance(e, str) else e
        left = max(5, (deadline - time.time()) * min(1, 2.5 / (len(entries) - i)))
        out = "%s/%s.out" % (BUILD, name)
        args = [symx, "--ll", ir, "--entry", name, "--out", out, "--jobs", str(os.cpu_count() or 4), "--time", "%d" % left,
                "--samples", str(opts.get("samples", 3)), "--known", "\x1f".join(known)]
        for k, v in dict(dict(split=1), **opts).items():
            if k != "samples":
                args += ["--" + k.replace("_", "-"), str(v)]
        te = time.time()
        r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=left + 200, errors="replace")
        lines = []
        for line in open(out, errors="replace") if os.path.exists(out) else []:
            try:
                lines.append(json.loads(line))
            except ValueError:
                errs.append("unreadable engine output")
        pe = dict(entry=name, paths=0, queries=0, ztime=0.0, incomplete=0)
        eviol, esamp = [], []
        for o in lines:
            t = o["t"]
            if t == "stats":
                for k in tot:
                    tot[k] += o[k]
                for k in ("paths", "queries", "ztime", "incomplete"):
                    pe[k] += o[k]
                for k, v in o["why"].items():
                    why[k] = why.get(k, 0) + v
                for k, v in o["reach"].items():
                    reach[k] = reach.get(k, 0) + v
            elif t == "fns":
                fns.update(o["names"])
            elif t == "viol":
                eviol.append(o)
            elif t == "sample":
                esamp.append(o)
            else:
                errs.append("%s: %s" % (name, json.dumps(o)[:300]))
        if not any(o["t"] == "stats" for o in lines):
            errs.append("%s: no result from the engine: %s" % (name, r.stdout[-300:]))
        for o in esamp[:40]:
            for _ in range(c.get("retries", 4)):
                res = native(exe, name, o["vals"], "s", timeout=60)
                good = res[0] in ("done", "panic_ok") and (res[0] == "panic_ok" or res[2] == [str(x) for x in o["obs"]])
                if good:
                    break
            if good:
                validated += 1
                if len(samples_out) < 8:
                    samples_out.append(dict(entry=name, input=o["vals"], observed=o["obs"]))
            else:
                mismatched.append(dict(entry=name, input=o["vals"], engine=o["obs"], native=[res[0], res[1], res[2]]))
        seen = {}
        for o in eviol:
            key = (o["kind"], o["msg"])
            if seen.get(key, 0) >= 3:
                continue
            ok = False
            for _ in range(6):
                res = native(exe, name, o["vals"], "v", timeout=20)
                ok = res[0] in ("assert", "panic", "hang") if o["kind"] != "limit" else res[0] in ("hang", "assert", "panic")
                if ok or res[0] == "hang":
                    break
            if not ok:
                unconfirmed.append(dict(entry=name, kind=o["kind"], msg=o["msg"], input=o["vals"], native=[res[0], res[1]]))
                continue
            seen[key] = seen.get(key, 0) + 1
            label = res[1] if res[0] == "assert" else ("does not terminate" if res[0] == "hang" else o["msg"] if o["kind"] == "panic" else res[1])
            k = next((k for k in known if k == label), None)
            if k is not None:
                hits[k] = hits.get(k, 0) + 1
                continue
            if any(v["label"] == label and v["entry"] == name for v in viols):
                continue
            n = len(viols) + 1
            p = "%s/%s-%d.txt" % (REPLAYS, pid, n)
            with open(p, "w") as f:
                f.write("".join("%d\n" % v for _, v in o["vals"]))
                f.write("property %s harness %s\noutcome: %s %s\ninputs: %s\nreplay: python3 %s/vp.py replay %s %s\n" % (pid, name, res[0], label, o["vals"], V, pid, p))
                f.write("stack: %s\nnative output:\n%s\n" % (o.get("stack"), res[3][-3000:]))
            viols.append(dict(entry=name, label=label, outcome=res[0], input=o["vals"], replay=p))
        pe["wall_s"] = round(time.time() - te, 2)
        pe["ztime"] = round(pe["ztime"], 3)
        per_entry.append(pe)
    ours = sorted({demangle(f) for f in fns if "7reveaal" in f})
    missing = [l for l in c.get("reach", []) if not reach.get(l)]
    for o in viols:
        print("VIOLATION property=%s replay=%s" % (pid, o["replay"]))
        print("  %s: %s (%s) inputs %s" % (o["entry"], o["label"], o["outcome"], o["input"][:60]))
    for k in known:
        if hits.get(k):
            print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
    problems = []
    if not viols:
        if missing:
            problems.append("never reached: %s" % missing)
        if not tot["paths"]:
            problems.append("no path was completed")
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking",
              coverage=dict(states=max(1, tot["paths"] + tot["panics_ok"]), transitions=tot["decides"], traces_validated_against_impl=validated,
                            samples=samples_out or [dict(note="no sample")], bounds=c["bounds"], outside_bounds=c.get("outside", ""),
                            exhaustive_within_bounds=(tot["incomplete"] == 0 and not errs),
                            paths=tot["paths"], paths_cut_by_assumption=tot["assumed"], incomplete_paths=tot["incomplete"], incomplete_reasons=why,
                            assertions_decided=tot["asserts"], branches_settled_by_difference_bounds=tot["fast"], queries=dict(total=tot["queries"], sat=tot["sat"], unsat=tot["unsat"], unknown=tot["unknown"]),
                            solver="z3 " + run([symx, "--version"]).stdout.strip().replace("z3 ", ""), solver_time_s=round(tot["ztime"], 3), instructions_executed=tot["insts"],
                            functions_encoded=[f for f in ours if not f.startswith("reveaal::vp::") and "::c%s::" % pid[1:] not in f],
                            functions_encoded_total=len(fns), entries=per_entry, reached=reach, build_s=round(t_build, 1),
                            known_findings=hits, unconfirmed=unconfirmed[:20], samples_not_reproduced=mismatched[:20], engine_errors=errs[:20]),
              assumptions=c["assumptions"] + COMMON, wall_s=round(time.time() - t0, 1),
              violations=len(viols), violation_list=[dict(label=o["label"], entry=o["entry"], input=o["input"], replay=o["replay"]) for o in viols])
    json.dump(ev, open("%s/evidence/%s.json" % (V, pid), "w"), indent=1)
    print("%s %s: %d paths, %d queries (%d unsat), %.1f s solver, %d validated, %d incomplete, %d unconfirmed, %d mismatched, %.0f s" % (
        pid, tier, tot["paths"], tot["queries"], tot["unsat"], tot["ztime"], validated, tot["incomplete"], len(unconfirmed), len(mismatched), time.time() - t0))
    for x in problems + errs[:5] + ["incomplete: %s" % why] * bool(why) + ["unconfirmed: %s" % json.dumps(u)[:300] for u in unconfirmed[:5]] + ["mismatch: %s" % json.dumps(u)[:300] for u in mismatched[:5]]:
        print("  note: " + x)
    if viols:
        sys.exit(1)
    if problems:
        print("NO-ANSWER " + "; ".join(problems))
        sys.exit(2)


COMMON = ["rustc's LLVM IR of /repo (opt-level 1, overflow checks on, panic=abort) is what runs",
          "the external crates edbm, lru, tonic, tokio, rand and the XML readers are stand-ins under /verif/stubs (the real ones are not available offline); edbm's is an explicit DBM federation",
          "HashMap seeds are one fixed value under the executor"]


def demangle(n):
    m = re.match(r"_R", n)
    if not m:
        return n
    parts, i = [], 0
    for m in re.finditer(r"(?<![0-9])(\d+)(_?[A-Za-z_])", n):
        k = int(m.group(1))
        s = n[m.end(1):m.end(1) + k].lstrip("_")
        if k > 1 and len(s) >= k - 1 and re.match(r"^[A-Za-z_]\w*$", s) and m.start() >= i:
            parts.append(s)
            i = m.end(1) + k
    return "::".join(parts[:8])


def manifest():
    """Writes properties.jsonl and MANIFEST.json from checks/props.py."""
    with open(V + "/properties.jsonl", "w") as f:
        for p in CHECKS.values():
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                                    anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], hook_needed=None))) + "\n")
    checks, na = [], []
    for p in CHECKS.values():
        if not p["entries"]:
            na.append(dict(property=p["id"], reason=p["na"]))
            continue
        checks.append(dict(property=p["id"], quick_cmd="python3 vp.py check %s --tier quick" % p["id"], thorough_cmd="python3 vp.py check %s --tier thorough" % p["id"],
                           technique="symbolic execution of the compiled code (rustc LLVM IR) with Z3; counterexamples replayed natively", level="model_checking",
                           level_note="Holds for every value within these bounds: %s. Outside: %s. Trusts the executor, Z3, rustc's IR and the stand-ins for unavailable crates (stubs/)." % (p["bounds"], p["outside"] or "-")))
    json.dump(dict(version=1, setup_cmd="python3 vp.py setup", checks=checks, not_applicable=na, notes="see DESIGN.md"), open(V + "/MANIFEST.json", "w"), indent=1)
    open(V + "/MANIFEST.json", "a").write("\n")
    from checks.how import HOW
    t = []
    for p in CHECKS.values():
        t.append("### %s %s\n%s\n" % (p["id"], p["title"], p["statement"]))
        if not p["entries"]:
            t.append("Not applicable: %s\n" % p["na"])
            continue
        t.append("*Code*: %s. *How*: %s\n" % (", ".join(p["files"]), HOW[p["id"]]))
        t.append("*Bounds*: %s. *Outside*: %s. *Entries*: %s%s.\n" % (p["bounds"], p["outside"] or "-", ", ".join(p["entries"]), "; thorough: " + ", ".join(p["deep"]) if p["deep"] else ""))
    d = open(V + "/DESIGN.md").read()
    a, b = d.index("<!-- properties -->"), d.index("<!-- end -->")
    open(V + "/DESIGN.md", "w").write(d[:a] + "<!-- properties -->\n" + "\n".join(t) + d[b:])


def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        os.makedirs(BUILD, exist_ok=True)
        build_engine()
        build_harness("c01")
        print("ok")
    elif a[:1] == ["check"]:
        tier = a[a.index("--tier") + 1] if "--tier" in a else "quick"
        check(a[1], tier)
    elif a[:1] == ["manifest"]:
        manifest()
    elif a[:1] == ["build"]:
        os.makedirs(BUILD, exist_ok=True)
        build_engine()
        print(*build_harness(a[1].lower()))
    elif a[:1] == ["replay"]:
        os.makedirs(BUILD, exist_ok=True)
        _, exe = build_harness(a[1].lower())
        text = open(a[2]).read()
        entry = re.search(r"harness (\S+)", text).group(1)
        vals = [("", int(x)) for x in re.match(r"(-?\d+\n)*", text).group(0).split()]
        print(native(exe, entry, vals, "r", trace=True)[3])


if __name__ == "__main__":
    main()
