"""Runs the check of its property against each planted change (all, or the ids given) and records in tools/caught.json which sub-check reports it.

Each patch is applied to /repo's working tree and undone straight afterwards; nothing else may use /repo meanwhile."""
import glob
import json
import os
import re
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def git(*a):
    return subprocess.run(["git", "-C", REPO, *a], capture_output=True, text=True)


def main():
    path = os.path.join(HERE, "tools/caught.json")
    caught = json.load(open(path)) if os.path.exists(path) else {}
    ids = sys.argv[1:] or sorted(os.path.basename(d) for d in glob.glob(os.path.join(HERE, "seeded/*")))
    assert not git("status", "--porcelain").stdout.strip(), "the working tree is not clean"
    for i in ids:
        d = os.path.join(HERE, "seeded", i)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        try:
            r = git("apply", os.path.join(d, "patch.diff"))
            if r.returncode:
                print("DOES NOT APPLY", i, r.stderr)
                caught[i] = None
                continue
            out = subprocess.run([sys.executable, "run_check.py", prop, "--no-evidence"], cwd=HERE, capture_output=True, text=True)
        finally:
            git("checkout", "--", ".")
        subs = sorted(set(re.findall(rf"^VIOLATION property={prop} replay=.*/{prop}-(.+)\.json", out.stdout, re.M)))
        for f in glob.glob(os.path.join(HERE, f"replays/{prop}-*")):
            os.remove(f)
        caught[i] = subs if out.returncode == 1 and subs else None
        print("CAUGHT" if caught[i] else f"MISSED rc={out.returncode}", i, prop, subs, flush=True)
    live = {os.path.basename(d) for d in glob.glob(os.path.join(HERE, "seeded/*"))}
    with open(path, "w") as f:
        json.dump({k: v for k, v in sorted(caught.items()) if k in live}, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
