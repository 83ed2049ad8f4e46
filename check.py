#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--only CASE] [--replay FILE]: decide one property by symbolic execution of the code in /repo."""
import json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + "/lib")
import vbuild
from cases import PROPS
VERIF = vbuild.VERIF


def findings():
    out = []
    p = VERIF + "/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) case=(\S+) id=(\S+) (.*)", l)
            if m:
                out.append(m.groups())
    return out


def engine_cmd(exe, bc, case, tier, out):
    c = [exe, bc, "-o", out, "--repo", vbuild.REPO, "--own", VERIF, "--time", str(case.get("time", 60 if tier == "quick" else 250)), "--mem", str(case.get("mem", 3000)),
         "--max-viol", "4", "--witness", "6"]
    if "steps" in case:
        c += ["--steps", str(case["steps"])]
    for k, v in case.get("p", {}).items():
        c += ["--param", "%s=%d" % (k, v)]
    return c


def write_replay(path, prop, case, v):
    with open(path, "w") as f:
        f.write("# property %s case %s harness %s variant '%s'\n# %s: %s\n# at %s\n# stack %s\n" % (prop, case["name"], case["h"], case.get("variant", ""), v["id"], v["msg"].replace("\n", " "), v["loc"], v["stack"]))
        for k, x in case.get("p", {}).items():
            f.write("param %s %d\n" % (k, x))
        for n, x in v["inputs"]:
            f.write("input %s %d\n" % (n, x))
        if v["sched"]:
            f.write("sched " + " ".join(map(str, v["sched"])) + "\n")


def run_native(exe, path, uninit):
    fills = [0xbe] if not uninit else [0xbe, 0xff, 0x01, 0x00, 0x7f]
    last = (0, "")
    for b in fills:
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=9:max_malloc_fill_size=1000000:malloc_fill_byte=%d" % b, UBSAN_OPTIONS="halt_on_error=1:exitcode=9:print_stacktrace=1")
        try:
            r = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=60)
            last = (r.returncode, r.stdout.decode(errors="replace"))
        except subprocess.TimeoutExpired:
            last = (124, "timeout")
        if last[0] not in (0, 3, 4):
            return last
    return last


def confirm(exe, prop, case, v, path):
    """replay a counterexample; returns (confirmed, how)"""
    if v["threads"] <= 1:
        try:
            nat = vbuild.native(case["h"], case.get("variant", ""))
        except vbuild.BuildError as e:
            return False, "native build failed: " + str(e)[-400:]
        rc, txt = run_native(nat, path, any(n.startswith("uninit") for n, _ in v["inputs"]))
        if rc not in (0, 3, 4):
            return True, "native run (ASan+UBSan): exit %d\n%s" % (rc, txt[-3000:])
        if rc != 4:
            return False, "native run: exit %d %s" % (rc, txt[-300:])
    out = path + ".json"
    bc = vbuild.bitcode(case["h"], case.get("variant", ""))
    subprocess.run([exe, bc, "-o", out, "--repo", vbuild.REPO, "--own", VERIF, "--time", "60", "--steps", "20000000", "--replay", path], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        r = json.load(open(out))
    except Exception:
        return False, "engine replay gave no result"
    finally:
        if os.path.exists(out):
            os.unlink(out)
    got = [x["id"] for x in r["violations"]]
    same = v["id"] in got or (v["id"] in ("livelock", "hang", "deadlock") and any(g in ("hang", "livelock", "deadlock") for g in got))
    return same, "concrete replay of inputs and schedule in the engine: %s" % (got or r["status"])


def run_case(exe, prop, case, tier, tmp):
    bc = vbuild.bitcode(case["h"], case.get("variant", ""))
    out = os.path.join(tmp, "%s-%s.json" % (prop, case["name"]))
    if os.path.exists(out):
        os.unlink(out)
    t0 = time.time()
    try:
        r = subprocess.run(engine_cmd(exe, bc, case, tier, out), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=case.get("time", 60 if tier == "quick" else 250) + 60)
        err = r.stdout.decode(errors="replace")[-400:] if r.returncode else ""
    except subprocess.TimeoutExpired:
        err = "timeout"
    try:
        res = json.load(open(out))
    except Exception:
        res = None
    return case, res, err, time.time() - t0


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    only = a[a.index("--only") + 1] if "--only" in a else None
    P = PROPS[prop]
    t0 = time.time()
    tmp = os.path.join(vbuild.B, "run")
    os.makedirs(tmp, exist_ok=True)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    exe = vbuild.engine()
    if "--replay" in a:
        f = a[a.index("--replay") + 1]
        m = re.match(r"# property (\S+) case (\S+) harness (\S+) variant '(.*)'", open(f).readline())
        case = dict(name=m.group(2), h=m.group(3), variant=m.group(4))
        thr = any(l.startswith("sched") for l in open(f))
        idl = [l for l in open(f) if l.startswith("# ")][1]
        ok, how = confirm(exe, prop, case, dict(threads=2 if thr else 1, id=idl[2:].split(":")[0], inputs=[]), f)
        print(how)
        print("reproduced" if ok else "not reproduced")
        return 1 if ok else 0
    cases = [c for c in P["cases"] if (only is None or c["name"] == only or c["name"].startswith(only + "-")) and (tier == "thorough" or c.get("tier", "q") == "q")]
    # thorough-tier overrides
    cases = [dict(c, **(c.get("thorough", {}) if tier == "thorough" else {})) for c in cases]
    for c in cases:
        c["p"] = dict(c.get("p", {}))
    for h in sorted({(c["h"], c.get("variant", "")) for c in cases}):
        vbuild.bitcode(*h)
    limit = float(os.environ.get("VERIF_LIMIT", "600" if tier == "quick" else "3300"))
    with ThreadPoolExecutor(7) as ex:
        def go(c):
            if time.time() - t0 > limit:
                return c, None, "skipped: time budget of the check used up", 0.0
            return run_case(exe, prop, c, tier, tmp)
        results = list(ex.map(go, cases))
    known = findings()
    tot = dict(paths=0, forks=0, instructions=0, decisions=0, schedule_choices=0, obligations=0, queries=0, solver_calls=0, domain=0, sat=0, unsat=0, unknown=0, cache_hits=0, solver_seconds=0.0, merged=0, nodes=0, bounded=0)
    fns, notes, covers, samples, per = set(), [], {}, [], []
    viol, nknown, validated, mism, complete = 0, 0, 0, 0, 0
    for case, r, err, secs in results:
        if r is None:
            notes.append("case %s: no result (%s)" % (case["name"], err))
            per.append(dict(case=case["name"], status="none", note=err))
            continue
        for k in tot:
            tot[k] += r.get(k, 0)
        fns |= set(r["functions"])
        for k, n in r["covers"].items():
            covers[case["name"] + ":" + k] = n
        per.append(dict(case=case["name"], params=case.get("p", {}), bound=case.get("bound", ""), status=r["status"], stop=r["stop"], paths=r["paths"], forks=r["forks"], obligations=r["obligations"], queries=r["queries"], merged_states=r["merged"], schedule_choices=r["schedule_choices"], solver_seconds=round(r["solver_seconds"], 3), seconds=round(secs, 2), incomplete=list(r["incomplete"].items())[:4]))
        if r["status"] == "ok":
            complete += 1
        elif r["status"] == "incomplete":
            notes.append("case %s incomplete: %s %s" % (case["name"], r["stop"], "; ".join("%s x%d" % x for x in list(r["incomplete"].items())[:3])))
        for c in case.get("covers", []):
            if not r["covers"].get(c):
                notes.append("case %s: reachability witness '%s' was not reached" % (case["name"], c))
        seen = set()
        for i, v in enumerate(r["violations"]):
            kf = next((k for k in known if k[0] == prop and k[1] == case["name"] and k[2] == v["id"]), None)
            path = VERIF + "/evidence/replay-%s-%s-%s.txt" % (prop, case["name"], re.sub(r"[^A-Za-z0-9_-]", "_", v["id"]))
            if v["id"] in seen:
                path = path[:-4] + "-%d.txt" % i
            seen.add(v["id"])
            write_replay(path, prop, case, v)
            if kf:
                nknown += 1
                print("KNOWN-FINDING: property=%s case=%s id=%s %s" % (prop, kf[1], kf[2], kf[3]))
                continue
            ok, how = confirm(exe, prop, case, v, path)
            with open(path, "a") as f:
                f.write("".join("# " + l + "\n" for l in how.split("\n")))
            if ok:
                viol += 1
                print("VIOLATION property=%s replay=%s" % (prop, path))
                print("  case %s: %s: %s at %s" % (case["name"], v["id"], v["msg"], v["loc"]))
                if v["threads"] <= 1:
                    validated += 1
            else:
                notes.append("case %s: UNCONFIRMED %s (%s): %s" % (case["name"], v["id"], v["msg"], how[-300:]))
        wit = [w for w in r.get("witnesses", []) if w["threads"] <= 1]
        if wit and not viol and not case.get("nowit"):
            try:
                nat = vbuild.native(case["h"], case.get("variant", ""))
                for k, w in enumerate(wit[:2 if tier == "quick" else 6]):
                    wp = os.path.join(tmp, "wit-%s-%s-%d.txt" % (prop, case["name"], k))
                    write_replay(wp, prop, case, dict(id="witness", msg="", loc="", stack="", inputs=w["inputs"], sched=[]))
                    rc, txt = run_native(nat, wp, False)
                    if rc == 0:
                        validated += 1
                    elif rc != 4:
                        mism += 1
                        notes.append("case %s: witness path ends differently in the native build (exit %d: %s)" % (case["name"], rc, txt[-200:].replace("\n", " ")))
            except vbuild.BuildError as e:
                notes.append("native build failed: " + str(e)[-300:])
        for w in r.get("witnesses", [])[:1]:
            samples.append(dict(case=case["name"], path_inputs={n: x for n, x in w["inputs"] if not n.startswith("uninit")}, schedule=w["sched"][:60]))
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking", wall_s=round(time.time() - t0, 2), violations=viol,
              assumptions=P.get("assumptions", []) + ["environment (files, clock, terminal, threads) is the model in rt/env.cpp and engine/exec_builtin.cpp", "memory order: sequentially consistent interleavings; weak-memory effects only through the happens-before race check where enabled"],
              coverage=dict(states=max(tot["paths"] + tot["nodes"], 1), transitions=tot["forks"] + tot["schedule_choices"], traces_validated_against_impl=validated, samples=samples[:6],
                            what="bounded symbolic execution of the LLVM IR of /repo: every branch on symbolic data is decided by an SMT query (Z3, cvc5 on unknown), every assertion is discharged or refuted over all values within the bounds",
                            bounds=P.get("bounds", ""), outside=P.get("outside", ""), cases=per, cases_complete=complete, cases_total=len(cases), repo_functions_encoded=sorted(fns), repo_functions_count=len(fns),
                            reachability=covers, totals={k: (round(v, 3) if isinstance(v, float) else v) for k, v in tot.items()}, known_findings_seen=nknown, native_disagreements=mism, notes=notes, exhaustive=False))
    json.dump(ev, open(VERIF + "/evidence/%s.json" % prop, "w"), indent=1)
    print("%s %s: %d/%d cases complete, %d paths, %d obligations, %d queries (%.1f s solver), %d functions of the library, %d traces validated, %.1f s" % (prop, tier, complete, len(cases), tot["paths"], tot["obligations"], tot["queries"], tot["solver_seconds"], len(fns), validated, time.time() - t0))
    for n in notes:
        print("note:", n)
    return 1 if viol else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except vbuild.BuildError as e:
        print("build failed:", e)
        sys.exit(2)
