#!/usr/bin/env python3
"""Decide one property: symbolically execute the harnesses of its crate over the LLVM IR of the
current /repo tree, discharge the assertions with an SMT/SAT solver, replay what is found."""
import json, os, re, subprocess, sys, threading, time, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
SX = os.path.join(HERE, "engine/target/release/sx")
CPUS = os.cpu_count() or 4


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def build_engine(res):
    env = dict(os.environ)
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS"):
        env.pop(k, None)
    r = sh(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(HERE, "engine"), env=env)
    res["engine"] = None if r.returncode == 0 else r.stderr[-3000:]


def build_harness(crate, res):
    r = sh(["bash", os.path.join(HERE, "harness/build.sh"), crate])
    if r.returncode:
        res["harness:" + crate] = r.stderr[-3000:]
        return
    p = (r.stdout.strip().splitlines() or [""])[-1].split(" ")
    res["harness:" + crate] = None
    res["ll:" + crate], res["bin:" + crate] = p[0], p[1]
    res["off:" + crate] = p[2] if len(p) > 2 else ""


def nice(n):
    """readable name of a mangled function"""
    if n.startswith("_ZN"):
        parts, i = [], 3
        while i < len(n) and n[i].isdigit():
            m = re.match(r"\d+", n[i:]).group()
            parts.append(n[i + len(m):i + len(m) + int(m)])
            i += len(m) + int(m)
        return "::".join(p for p in parts if not re.fullmatch(r"h[0-9a-f]{16}", p))
    if n.startswith("_R"):
        parts, i = [], 2
        while i < len(n):
            m = re.match(r"(\d+)_?", n[i:]) if n[i] in "123456789" else None
            if m and i + len(m.group(0)) + int(m.group(1)) <= len(n):
                s = n[i + len(m.group(0)):i + len(m.group(0)) + int(m.group(1))]
                if re.fullmatch(r"[A-Za-z_]\w*", s):
                    parts.append(s)
                    i += len(m.group(0)) + int(m.group(1))
                    continue
            i += 1
        return "::".join(parts)
    return n


def native(binp, off, case, inputs, workdir, tag, valgrind=False, perturb=False):
    f = os.path.join(workdir, tag + ".in")
    open(f, "w").write("".join("%d\n" % x for x in inputs))
    env = dict(os.environ, SYM_INPUTS=f, SYM_ARGS=",".join(map(str, case.args)), RUST_BACKTRACE="0")
    if perturb:
        env["MALLOC_PERTURB_"] = "85"
    if case.simd < 2 and off:
        env.update(SYM_SIMD=str(case.simd), SYM_CACHE=off)
    cmd = [binp, case.entry]
    if valgrind:
        cmd = ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes"] + cmd
    try:
        r = sh(cmd, env=env, timeout=60 if valgrind else 20)
        return r.returncode, r.stdout, r.stderr, f, env, cmd
    except subprocess.TimeoutExpired:
        return "timeout", "", "", f, env, cmd


class Pool:
    def __init__(self, n):
        self.n, self.cv = n, threading.Condition()

    def take(self, k):
        with self.cv:
            while self.n < k:
                self.cv.wait()
            self.n -= k

    def give(self, k):
        with self.cv:
            self.n += k
            self.cv.notify_all()


def run_case(case, ll, workdir, k, pool, slots, scale):
    j = min(case.jobs, CPUS)
    pool.take(j)
    out = os.path.join(workdir, "case%d.json" % k)
    if os.path.exists(out):
        os.remove(out)
    t = case.time * scale
    cmd = [SX, "--ll", ll, "--entry", case.entry, "--args", ",".join(map(str, case.args)), "--time", str(t),
           "--qtimeout", str(int(case.qtimeout * 1000)), "--simd", str(case.simd), "--split", str(int(case.split)), "--jobs", str(j),
           "--witness", str(case.witness), "--out", out, "--max-viol", "6"]
    t0 = time.time()
    err = ""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    rc = None
    try:
        _, err = p.communicate(timeout=t + 45)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        rc = "killed"
    pool.give(j)
    r = None
    if os.path.exists(out):
        try:
            r = json.load(open(out))
        except ValueError:
            r = None
    slots[k] = (rc, r, err, time.time() - t0)


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    only = sys.argv[3] if len(sys.argv) > 3 else None
    t0 = time.time()
    sys.path.insert(0, HERE)
    import props
    P = props.PROPS[pid]
    cases = [c for c in P.cases if c.tier == "quick" or tier == "thorough"]
    if only:
        cases = [c for c in cases if re.fullmatch(only, c.entry)]
    scale = 1 if tier == "quick" else 6
    work = os.path.join(HERE, "work", pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    res = {}
    crates = sorted({c.crate for c in cases})
    ths = [threading.Thread(target=build_engine, args=(res,))]
    for c in crates:
        ths.append(threading.Thread(target=build_harness, args=(c, res)))
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    bad = {k: v for k, v in res.items() if v and (k == "engine" or k.startswith("harness:"))}
    if bad:
        for k, v in bad.items():
            print("build of %s failed:\n%s" % (k, v))
        return 2
    t_build = time.time() - t0
    pool = Pool(CPUS)
    slots = [None] * len(cases)
    order = sorted(range(len(cases)), key=lambda i: -cases[i].jobs * cases[i].time)
    ths = []
    for i in order:
        th = threading.Thread(target=run_case, args=(cases[i], res["ll:" + cases[i].crate], work, i, pool, slots, scale))
        th.start()
        ths.append(th)
        time.sleep(0.01)
    for th in ths:
        th.join()

    known = []
    kf = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)) if k.get("status") == "known" and k["property"] == pid]
    hit = set()
    errors, viols, summary, validated, samples = [], [], [], 0, []
    tot = dict(paths=0, instructions=0, forks=0, queries=0, sat=0, unsat=0, unknown=0, second_solver=0, truth_tables=0)
    solver_s, asserts = 0.0, [0, 0]
    fns = set()
    for i, c in enumerate(cases):
        rc, r, err, secs = slots[i]
        name = "%s(%s) simd=%d" % (c.entry, ",".join(map(str, c.args)), c.simd)
        binp, off = res["bin:" + c.crate], res["off:" + c.crate]
        if r is None:
            if rc == "killed" or rc in (137, -9):
                summary.append(dict(case=name, bounds=c.note, outcome="ended at its time or memory limit, nothing decided"))
                if c.must:
                    errors.append("%s: no result (%s)" % (name, rc))
            else:
                errors.append("%s: engine error rc=%s %s" % (name, rc, err[-1500:]))
            continue
        for k in tot:
            tot[k] += r[k]
        solver_s += r["solver_seconds"]
        asserts[0] += r["assert_concrete"]
        asserts[1] += r["assert_symbolic"]
        fns.update(nice(f) for f in r["functions"])
        n_unconf = 0
        for n, v in enumerate(r["violations"]):
            tag = "c%d_v%d" % (i, n)
            mem = v["kind"] in ("memory",)
            code, so, se, f, env, cmd = native(binp, off, c, v["inputs"], work, tag, valgrind=False)
            ok = code not in (0, 78, 64)
            if code == "timeout":
                ok = v["kind"] in ("stack", "hang", "limit")
            if not ok and not mem and code == 0:
                # what is read before it is written has another value now
                code, so, se, f, env, cmd = native(binp, off, c, v["inputs"], work, tag, perturb=True)
                ok = code not in (0, 78, 64, "timeout")
            if not ok and mem:
                code, so, se, f, env, cmd = native(binp, off, c, v["inputs"], work, tag, valgrind=True)
                ok = code not in (0, 78, 64, "timeout")
                if not ok:
                    # re-execute concretely: bounds violations inside one allocation's padding
                    rr = sh([SX, "--ll", res["ll:" + c.crate], "--entry", c.entry, "--args", ",".join(map(str, c.args)),
                             "--simd", str(c.simd), "--split", str(int(c.split)), "--conc", ",".join(map(str, v["inputs"])), "--time", "60"])
                    try:
                        vv = json.loads(rr.stdout)["violations"]
                        ok = any(x["kind"] == v["kind"] for x in vv)
                    except ValueError:
                        ok = False
            if not ok:
                n_unconf += 1
                errors.append("%s: counterexample not reproduced natively (%s: %s; exit %s) %s" % (name, v["kind"], v["detail"], code, v["inputs"][:40]))
                continue
            k = next((k for k in known if k["entry"] == c.entry and k["kind"] == v["kind"] and re.search(k["detail"], v["detail"])
                      and ("args" not in k or k["args"] == list(c.args))
                      and ("stack" not in k or any(re.search(k["stack"], s) for s in v["stack"]))), None)
            if k:
                hit.add(k["what"])
                continue
            sp = os.path.join(work, "replay_%s.sh" % tag)
            keep = {x: env[x] for x in ("SYM_INPUTS", "SYM_ARGS", "SYM_SIMD", "SYM_CACHE", "MALLOC_PERTURB_") if x in env}
            with open(sp, "w") as g:
                g.write("#!/bin/bash\n# %s %s: %s\n# inputs: %s\n" % (name, v["kind"], v["detail"], v["inputs"][:200]))
                g.write("# stack: %s\n" % " < ".join(nice(s) for s in v["stack"][:6]))
                g.write(" ".join("%s=%s" % kv for kv in keep.items()) + " " + " ".join(cmd) + "\n")
            os.chmod(sp, 0o755)
            viols.append((name, v, sp, code))
        got = {int(k) for k in r["reached"]}
        missing = [x for x in c.reach if x not in got]
        inc = r["incomplete"]
        if missing and not r["violations"]:
            if not inc or set(inc) - {"time limit", "solver gave no answer"}:
                errors.append("%s: labels %s never reached (%s)" % (name, missing, inc))
        for n, w in enumerate(r["witnesses"]):
            if n >= c.witness:
                break
            code, so, se, f, env, cmd = native(binp, off, c, w["inputs"], work, "w%d_%d" % (i, n))
            exp = ["OUT %d" % x for x in w["outs"]] + ["REACH %d" % x for x in w["labels"]]
            lines = so.splitlines()
            got_l = [l for l in lines if l.startswith("OUT ")] + [l for l in lines if l.startswith("REACH ")]
            if code != 0 or got_l != exp:
                if not r["violations"]:
                    errors.append("%s: engine and native build disagree on inputs %s (exit %s; %s vs %s) %s" % (name, w["inputs"][:60], code, exp[:12], got_l[:12], se[-200:]))
            else:
                validated += 1
                if len(samples) < 6 and n == 0:
                    samples.append(dict(case=name, inputs=w["inputs"][:48]))
        summary.append(dict(case=name, bounds=c.note, outcome="all paths decided" if not inc else "partial: " + ", ".join("%s x%d" % x for x in inc.items()),
                            paths=r["paths"], queries=r["queries"], solver_s=round(r["solver_seconds"], 2), wall_s=round(secs, 1)))
    for w in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    wall = time.time() - t0
    ours = sorted(f for f in fns if "zune" in f)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
              coverage=dict(states=tot["paths"], transitions=tot["instructions"], traces_validated_against_impl=validated,
                            samples=samples or [dict(case="none")], branch_forks=tot["forks"],
                            solver_queries=tot["queries"], sat=tot["sat"], unsat=tot["unsat"], unknown=tot["unknown"],
                            decided_by_second_solver=tot["second_solver"], decided_by_truth_table=tot["truth_tables"],
                            solver_seconds=round(solver_s, 2), build_seconds=round(t_build, 1),
                            assertions_discharged_by_solver=asserts[1], assertions_decided_concretely=asserts[0],
                            cases_fully_decided=sum(1 for s in summary if s["outcome"] == "all paths decided"),
                            cases_partial=sum(1 for s in summary if s["outcome"] != "all paths decided"),
                            cases=summary, functions_encoded=len(fns), repo_functions_encoded=ours[:400],
                            known_findings_seen=sorted(hit)),
              assumptions=P.assumptions, wall_s=round(wall, 1), violations=len(viols))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for s in summary:
        print("%-44s %-20s %s" % (s["case"], s["outcome"][:60], " ".join("%s=%s" % (k, s[k]) for k in ("paths", "queries", "solver_s", "wall_s") if k in s)))
    print("%s %s: %d paths, %d queries, %.1fs solver, %d witnesses, build %.0fs, total %.0fs" % (pid, tier, tot["paths"], tot["queries"], solver_s, validated, t_build, wall))
    for e in errors:
        print("ERROR " + e)
    if viols:
        for name, v, sp, code in viols:
            print("  %s: %s %s (native exit %s) inputs %s" % (name, v["kind"], v["detail"], code, v["inputs"][:64]))
            print("    at %s" % " < ".join(nice(s) for s in v["stack"][:5]))
            print("VIOLATION property=%s replay=%s" % (pid, sp))
        return 1
    return 2 if errors else 0


if __name__ == "__main__":
    sys.exit(main())
