#!/opt/venv/bin/python
"""Confirms planted changes and runs the checks of their properties on them.

usage: tools/verify_seeds.py [--jobs N] [--no-check] [--all-checks] [ID ...]

Each change is applied to a scratch copy of /repo (under /tmp, removed
afterwards): it must apply, change original lines, compile, pass the tests, and
its demonstration must succeed before and fail after.  Then the quick check of
its property is run on the copy; CAUGHT means it exits 1 with its VIOLATION line.
"""
import argparse, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
PY = "/opt/venv/bin/python"
BASE = "e113bb7"


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0")
    e.pop("PYTHONPATH", None)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def original_lines(repo, diff):
    """True if some removed line of the patch is a line of the original file."""
    file, ok = None, False
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            file = line[6:].strip()
            base = sh(["git", "show", f"{BASE}:{file}"], repo)[1].splitlines()
        elif line.startswith("-") and not line.startswith("---"):
            if line[1:].strip() and line[1:] in base:
                ok = True
    return ok


def run(sid, args):
    src = os.path.join(SEEDED, sid)
    meta = json.load(open(os.path.join(src, "meta.json")))
    work = f"/tmp/seedwork/{sid}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs("/tmp/seedwork", exist_ok=True)
    res = {"id": sid, "property": meta["property"]}
    try:
        shutil.copytree("/repo", work, symlinks=True)
        demodir = work + ".demo"
        shutil.rmtree(demodir, ignore_errors=True)
        shutil.copytree(src, demodir)
        os.remove(os.path.join(demodir, "patch.diff")); os.remove(os.path.join(demodir, "meta.json"))
        demo = ["bash", os.path.join(demodir, "demo.sh")]
        rc, out = sh(demo, work, timeout=300)
        if rc != 0:
            res["bad"] = "demo fails on clean tree: " + out[-600:]
            return res
        patch = os.path.join(src, "patch.diff")
        rc, out = sh(["git", "apply", patch], work)
        if rc:
            res["bad"] = "patch: " + out
            return res
        if not original_lines(work, open(patch).read()):
            res["bad"] = "changes no original line"
            return res
        rc, out = sh([PY, "-m", "compileall", "-q", "norfair"], work)
        rc, out = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--disable-warnings", "tests"], work,
                     env={"PYTHONPATH": work})
        if "25 passed" not in out or rc:
            res["bad"] = "tests: " + out[-600:]
            return res
        rc, out = sh(demo, work, timeout=300)
        if rc == 0:
            res["bad"] = "demo passes with the change"
            return res
        res["demo"] = out.strip().splitlines()[-1][:160] if out.strip() else ""
        if args.no_check:
            return res
        props = [meta["property"]]
        if args.all_checks:
            props = [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
        res["caught"] = []
        for p in props:
            t = time.time()
            rc, out = sh([os.path.join(HERE, "check"), p], HERE, env={"NORFAIR_REPO": work, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
            hit = rc == 1 and re.search(rf"^VIOLATION property={p} ", out, re.M)
            if hit:
                res["caught"].append(p)
            elif rc not in (0, 1):
                res.setdefault("broken", []).append((p, out[-300:]))
            res["secs"] = round(time.time() - t)
    finally:
        shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree(work + ".demo", ignore_errors=True)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--jobs", type=int, default=3)
    ap.add_argument("--no-check", action="store_true")
    ap.add_argument("--all-checks", action="store_true")
    ap.add_argument("--out", default="/tmp/seed_results.json")
    ap.add_argument("ids", nargs="*")
    args = ap.parse_args()
    ids = args.ids or sorted(os.listdir(SEEDED))
    results = {}
    if os.path.exists(args.out):
        results = json.load(open(args.out))
    def one(i):
        try:
            r = run(i, args)
        except Exception as e:
            r = {"id": i, "bad": repr(e)}
        results[i] = r
        json.dump(results, open(args.out, "w"), indent=1)
        if "bad" in r:
            s = "INVALID " + r["bad"]
        elif args.no_check:
            s = "valid   " + r.get("demo", "")
        else:
            s = ("CAUGHT  " if r["property"] in r["caught"] else "MISSED  ") + str(r["caught"]) + f" {r.get('secs')}s " + r.get("demo", "") + str(r.get("broken", ""))
        print(i, s, flush=True)
    with ThreadPoolExecutor(args.jobs) as ex:
        list(ex.map(one, ids))


main()
