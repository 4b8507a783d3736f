"""builds /verif/seeded/<id>/ from tools/seedspec/<id>.py (edit + demonstration) and confirms it in a scratch copy of /repo.
usage: mkseed.py ID...     (with --tests also runs the stable tests there)"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")


def run(cmd, cwd, env=ENV, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, capture_output=True, text=True)


def build(i, tests):
    spec = {}
    src = open(os.path.join(HERE, "tools/seedspec", i + ".py")).read()
    head, demo = src.split("# ---- demo\n", 1)
    exec(head, spec)
    out = os.path.join(HERE, "seeded", i)
    os.makedirs(out, exist_ok=True)
    copy = f"/tmp/seed_{i}"
    shutil.rmtree(copy, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", copy], check=True)
    open(os.path.join(out, "demo.py"), "w").write(demo)
    open(os.path.join(out, "demo.sh"), "w").write(
        '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu MPLBACKEND=Agg\n'
        'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=spec["prop"], needs=spec["needs"], what_it_breaks=spec["breaks"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
    ok = run(["bash", os.path.join(out, "demo.sh")], copy)
    for f, a, b in spec["edits"]:
        p = os.path.join(copy, f)
        s = open(p).read()
        assert s.count(a) == 1 or spec.get("first"), (f, a, s.count(a))
        s = s.replace(a, b, 1)
        open(p, "w").write(s)
    bad = run(["bash", os.path.join(out, "demo.sh")], copy)
    d = run(["git", "diff"], copy).stdout
    # the removed lines must belong to the original repository
    base = run(["git", "rev-list", "--max-parents=0", "HEAD"], copy).stdout.strip()
    for f in {e[0] for e in spec["edits"]}:
        bl = run(["git", "diff", "-U0", f], copy).stdout
        for h in [l for l in bl.splitlines() if l.startswith("@@")]:
            a = h.split()[1][1:].split(",")
            st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
            if n:
                b = run(["git", "blame", "-s", "-L", f"{st},{st+n-1}", "HEAD", "--", f], copy).stdout
                for l in b.splitlines():
                    if not l.lstrip("^").startswith(base[:7]):
                        print("   NOT ORIGINAL:", l)
    open(os.path.join(out, "patch.diff"), "w").write(d)
    msg = f"{i}: unchanged={ok.returncode} patched={bad.returncode}"
    if ok.returncode or not bad.returncode:
        msg += "  BAD\n" + ok.stderr[-600:] + bad.stderr[-600:] + bad.stdout[-300:]
    else:
        msg += " | " + (bad.stderr.strip().splitlines() or ["?"])[-1][:160]
    if tests:
        env = dict(ENV, PYTHONPATH=f"{copy}:/opt/vp/pytest_plugins", HOME="/root")
        run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_seed", "--timeout=300", "-o", "junit_family=xunit2",
             f"--junitxml=/tmp/seed_{i}.xml", "tests"], copy, env, 2000)
        run(["/usr/bin/python3", "/opt/vp/results.py", f"/tmp/seed_{i}.json", f"junit:/tmp/seed_{i}.xml"], copy)
        o = json.load(open(f"/tmp/seed_{i}.json"))
        miss = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in set(o["passed"])]
        msg += f" | tests: {len(miss)} stable failing {miss[:3]}"
        for e in (".xml", ".json"):
            os.remove(f"/tmp/seed_{i}{e}")
    shutil.rmtree(copy, ignore_errors=True)
    print(msg, flush=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    t = "--tests" in a
    for i in [x for x in a if not x.startswith("--")] or sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "tools/seedspec"))):
        build(i, t)
