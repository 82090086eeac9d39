#!/usr/bin/env python3
"""Plants bugs: from the definitions in tools/plants/*.py makes seeded/<id>/ and confirms it in a scratch copy of /repo.

  plant.py confirm ID...|all    make the patch; it applies, builds, passes the stable tests; demo 0 clean, nonzero patched
  plant.py check ID... [--props P,..]   run the checks against the patched scratch copy and tell which alarm
"""
import fcntl, importlib.util, glob, json, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "2fcd16b"
SCRATCH = "/tmp/plant." + os.environ.get("PLANT_SLOT", "0")

DEMO_SH = r'''#!/bin/bash
# Run with the repository as working directory, after its build.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
%(pre)sg++ -std=gnu++17 %(flags)s -w -pthread -I src/include -I _build/include/falcon "$here/demo.cpp" %(srcs)s -o "$tmp/demo" || exit 2
cd "$tmp"
%(run)s
'''


def load():
    out = {}
    for f in sorted(glob.glob(os.path.join(VERIF, "tools", "plants", "*.py"))):
        spec = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for p in m.PLANTS:
            assert p["id"] not in out, p["id"]
            out[p["id"]] = p
    return out


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", **kw)


def scratch():
    repo = SCRATCH + "/repo"
    if not os.path.isdir(repo):
        os.makedirs(SCRATCH)
        assert sh(["cp", "-a", "/repo", repo]).returncode == 0
        shutil.rmtree(repo + "/_build", ignore_errors=True)
        os.makedirs(SCRATCH + "/vp")
        for f in ("build.sh", "test.sh", "run_fut.py", "results.py"):
            t = open("/opt/vp/" + f).read().replace("/repo", repo).replace("/opt/vp", SCRATCH + "/vp")
            open(SCRATCH + "/vp/" + f, "w").write(t)
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=repo)
    assert sh("git rev-parse HEAD", cwd=repo).stdout == sh("git rev-parse HEAD", cwd="/repo").stdout
    return repo


def apply_edits(p, repo):
    for f, old, new in p["edits"]:
        path = os.path.join(repo, f)
        t = open(path).read()
        if t.count(old) != 1:
            raise SystemExit("%s: edit of %s matches %d times:\n%s" % (p["id"], f, t.count(old), old))
        open(path, "w").write(t.replace(old, new))


def originality(repo):
    """The lines removed by the patch, and whether each is of the original repository."""
    d = sh("git diff -U0", cwd=repo).stdout
    f, bad, good = None, [], 0
    blame = {}
    for line in d.splitlines():
        m = re.match(r"--- a/(.*)", line)
        if m:
            f = m.group(1)
            blame[f] = [l.startswith("^" + BASE) or l.startswith(BASE)
                        for l in sh(["git", "blame", "-s", "--abbrev=8", "HEAD", "--", f], cwd=repo).stdout.splitlines()]
            blame[f] = [bool(re.match(r"\^" + BASE, l)) for l in
                        sh(["git", "blame", "-s", "HEAD", "--", f], cwd=repo).stdout.splitlines()]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", line)
        if m:
            n = int(m.group(2) or 1)
            for i in range(int(m.group(1)), int(m.group(1)) + n):
                if blame[f][i - 1]:
                    good += 1
                else:
                    bad.append((f, i))
    return good, bad


RESULTS = os.path.join(VERIF, "tools", "plants", "results.json")


def record(id, what, value):
    """Keeps what the last check of a plant said; several processes may do so at once."""
    with open(SCRATCH.rsplit(".", 1)[0] + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = json.load(open(RESULTS)) if os.path.exists(RESULTS) else {}
        d.setdefault(id, {})[what] = value
        json.dump(d, open(RESULTS, "w"), indent=1, sort_keys=True)


def confirm(p):
    """Installs the plant in seeded/ when everything about it is confirmed, removes it otherwise."""
    d = SCRATCH + "/seed/" + p["id"]
    shutil.rmtree(d, ignore_errors=True)
    r = confirm_in(p, d)
    final = os.path.join(VERIF, "seeded", p["id"])
    shutil.rmtree(final, ignore_errors=True)
    if r.startswith("ok"):
        shutil.copytree(d, final)
    record(p["id"], "confirmed", r.startswith("ok"))
    return r


def confirm_in(p, d):
    repo = scratch()
    os.makedirs(d)
    flags = p.get("flags", "-O1 -g")
    run = p.get("run", "timeout %d ./demo" % p.get("timeout", 60))
    srcs = " ".join(p.get("srcs", []))
    text = p.get("demo_sh") or DEMO_SH % dict(pre=p.get("pre", ""), flags=flags, srcs=srcs, run=run)
    with open(d + "/demo.sh", "w") as f:
        f.write(text)
    os.chmod(d + "/demo.sh", 0o755)
    if "demo" in p:
        open(d + "/demo.cpp", "w").write(p["demo"].lstrip("\n"))
    for name, t in p.get("files", {}).items():
        open(os.path.join(d, name), "w").write(t.lstrip("\n"))
    json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["what"]},
              open(d + "/meta.json", "w"), indent=1)
    demo = ["bash", d + "/demo.sh"]
    reps = p.get("reps", 3)
    r = sh(["bash", SCRATCH + "/vp/build.sh"])
    assert r.returncode == 0, r.stdout[-2000:]
    for i in range(reps):
        r = sh(demo, cwd=repo, timeout=400)
        if r.returncode != 0:
            return "demo fails on the clean tree: %d %s" % (r.returncode, r.stdout[-1500:])
    apply_edits(p, repo)
    diff = sh("git diff", cwd=repo).stdout
    open(d + "/patch.diff", "w").write(diff)
    good, bad = originality(repo)
    if not good or bad:
        return "lines not original: good=%d bad=%s" % (good, bad)
    r = sh(["bash", SCRATCH + "/vp/test.sh", SCRATCH + "/out.json"])
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = set(base["stable"])
    got = json.load(open(SCRATCH + "/out.json"))
    missing = sorted(want - set(got["passed"]))
    if missing:
        return "tests fail: %s %s" % (missing[:5], r.stdout[-800:])
    for i in range(reps):
        r = sh(demo, cwd=repo, timeout=400)
        if r.returncode == 0:
            return "demo passes with the patch"
        if r.returncode == 2 and "error:" in r.stdout:
            return "demo does not compile with the patch: " + r.stdout[:800]
    return "ok (demo says: %s)" % r.stdout.strip()[-160:].replace("\n", " / ")


def check(p, props):
    repo = scratch()
    r = sh(["git", "apply", os.path.join(VERIF, "seeded", p["id"], "patch.diff")], cwd=repo)
    assert r.returncode == 0, r.stdout
    res = []
    for pr in props or [p["property"]]:
        env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
        r = sh(["python3", os.path.join(VERIF, "run.py"), pr], env=env)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        record(p["id"], pr, "caught" if r.returncode == 1 and v else "missed (exit %d)" % r.returncode)
        res.append("%s:%d%s" % (pr, r.returncode, " " + v[0][:150] if v else ""))
    return "; ".join(res)


def main():
    what, ids = sys.argv[1], sys.argv[2:]
    props = None
    if "--props" in ids:
        i = ids.index("--props")
        props = ids[i + 1].split(",")
        ids = ids[:i]
    plants = load()
    if ids == ["all"]:
        ids = list(plants)
    ids = [i for x in ids for i in plants if i == x or re.fullmatch(x, i)]
    for i in ids:
        if what == "confirm":
            print(i, confirm(plants[i]), flush=True)
        elif what == "check":
            print(i, check(plants[i], props), flush=True)
        else:
            r = confirm(plants[i])
            print(i, r, flush=True)
            if r.startswith("ok"):
                print("   ", check(plants[i], props), flush=True)
    scratch()


if __name__ == "__main__":
    main()
