#!/usr/bin/env python3
"""seed.py make <id> <property> <crates,..>  (stdin: JSON {edits:[[file,old,new],..], main, needs, breaks})
   seed.py test <id>...   builds, runs the stable tests and the demo with and without the patch, in a scratch copy
   seed.py hit <id>...    runs the property's quick check against /repo with the patch, then undoes it"""
import json, os, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(ROOT, "seeded")
WT = "/tmp/seedrepo"


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def wt():
    if not os.path.isdir(WT):
        sh(f"mkdir {WT} && cd /repo && git ls-files -z | xargs -0 cp --parents -a -t {WT}")
        sh(f"cd {WT} && git init -q && git add -A -f && git -c user.name=x -c user.email=x@x commit -qm x")
    return WT


def make(id, prop, crates, spec):
    d = os.path.join(S, id)
    os.makedirs(d, exist_ok=True)
    t = sh("mktemp -d").stdout.strip()
    files = []
    for f, old, new in spec["edits"]:
        for side in "ab":
            os.makedirs(os.path.join(t, side, os.path.dirname(f)), exist_ok=True)
            if not os.path.exists(os.path.join(t, side, f)):
                shutil.copy(os.path.join("/repo", f), os.path.join(t, side, f))
        q = os.path.join(t, "b", f)
        s = open(q).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(q, "w").write(s.replace(old, new))
        files.append(f)
    out = ""
    for f in dict.fromkeys(files):
        out += f"diff --git a/{f} b/{f}\n" + sh(f"cd {t} && diff -u a/{f} b/{f}").stdout
    open(os.path.join(d, "patch.diff"), "w").write(out)
    shutil.rmtree(t)
    open(os.path.join(d, "main.rs"), "w").write(spec["main"])
    shutil.copy(os.path.join(ROOT, "tools", "demo.sh"), os.path.join(d, "demo.sh"))
    toml = '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\n'
    toml += "".join(f'{c.split(":")[0]} = {{ path = "@REPO@/crates/{c.split(":")[0]}"' + (", " + c.split(":", 1)[1] if ":" in c else "") + " }\n" for c in crates)
    open(os.path.join(d, "Cargo.toml.in"), "w").write(toml)
    json.dump(dict(property=prop, needs=spec["needs"], what_it_breaks=spec["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    print(sh(f"git -C /repo apply --check {d}/patch.diff").stderr or f"{id}: patch applies")


def test(ids):
    shutil.rmtree(WT, ignore_errors=True)
    w = wt()
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    env = dict(os.environ)
    for id in ids:
        d = os.path.join(S, id)
        r0 = sh(f"bash {d}/demo.sh", cwd="/repo")
        a = sh(f"git apply {d}/patch.diff", cwd=w)
        r1 = sh(f"bash {d}/demo.sh", cwd=w)
        # stable tests: applied to /repo's test script in place is not possible, so run it on the copy
        b = sh(f"sed 's#/repo#{w}#g' /opt/vp/env.sh > {w}.env; for f in build.sh test.sh; do sed 's#/opt/vp/env.sh#{w}.env#; s#/repo#{w}#g' /opt/vp/$f > {w}.$f; done; cd {w} && mkdir -p target && bash {w}.build.sh && bash {w}.test.sh {w}.json")
        try:
            passed = set(json.load(open(f"{w}.json"))["passed"])
            miss = [x for x in stable if x not in passed]
        except Exception as e:
            miss = [str(e), b.stderr[-800:]]
        ok = r0.returncode == 0 and r1.returncode not in (0, 3, 2) and not miss and a.returncode == 0
        print(id, "OK" if ok else "BAD", "demo", r0.returncode, r1.returncode, "missing tests", miss[:4], a.stderr[:200], (r0.stdout + r0.stderr)[-500:] if r0.returncode else "", r1.stdout[-700:] if r1.returncode in (0, 2, 3) else "", flush=True)
        sh("git checkout -q -- .", cwd=w)
        if os.path.exists(f"{w}.json"):
            os.unlink(f"{w}.json")


def hit(ids):
    for id in ids:
        d = os.path.join(S, id)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        assert not sh("git -C /repo status --porcelain").stdout
        a = sh(f"git -C /repo apply {d}/patch.diff")
        t = time.time()
        try:
            r = sh(f"python3 check.py {prop} quick", cwd=ROOT)
        finally:
            sh("git -C /repo checkout -- .")
        v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
        print(id, prop, "CAUGHT" if r.returncode == 1 and v else "missed", f"rc={r.returncode} {time.time()-t:.0f}s", a.stderr[:200], "" if v else r.stdout[-300:] + r.stderr[-300:], flush=True)


if __name__ == "__main__":
    c = sys.argv[1]
    if c == "make":
        make(sys.argv[2], sys.argv[3], sys.argv[4].split(","), json.load(sys.stdin))
    elif c == "test":
        test(sys.argv[2:])
    else:
        hit(sys.argv[2:])
