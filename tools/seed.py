"""
Make and judge planted bugs.

    seed.py make SPEC.py [ID...]   make /verif/seeded/<ID>/ from the specs and confirm them
    seed.py check [ID...]          run the check of each one's property against it

A spec file defines SEEDS = {id: dict(property, file, edits=[(old, new)...], needs, breaks, demo)}.
Everything is done in scratch copies below /tmp, which are removed.
"""
import concurrent.futures as cf
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
BASE = "976eaae"
DEMO_SH = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" REPO="$PWD"
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp" HOME="$tmp"
cd "$tmp" || exit 2
timeout 250 /opt/venv/bin/python "$here/demo.py"
"""


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", check=False, **kw)


def scratch():
    d = tempfile.mkdtemp(prefix="seedwt.", dir="/tmp")
    shutil.copytree("/repo", d + "/repo", symlinks=True)
    return d


def demo(repo, folder):
    return run(["bash", os.path.join(folder, "demo.sh")], cwd=repo, timeout=300)


def stable(repo):
    """Run the tests on a copy; returns the names of the failed stable ones"""
    base = json.load(open("/opt/vp/BASELINE.json"))
    with open("/opt/vp/test.sh") as f:
        text = f.read()
    text = re.sub(r"(?<![\w/])/repo\b", repo, text)
    top = os.path.dirname(repo)
    with open(top + "/test.sh", "w") as f:
        f.write(text)
    p = run(["bash", top + "/test.sh", top + "/out.json"])
    try:
        res = json.load(open(top + "/out.json"))
    except OSError:
        return ["no result: " + p.stdout[-500:]]
    return base, res


def make(sid, spec):
    d = scratch()
    try:
        repo = d + "/repo"
        edits = spec["edits"]
        for edit in edits:
            fn, old, new = edit if len(edit) == 3 else (spec["file"],) + tuple(edit)
            path = os.path.join(repo, fn)
            s = open(path).read()
            if s.count(old) != 1:
                return "%s: edit matches %d times: %r" % (sid, s.count(old), old[:80])
            open(path, "w").write(s.replace(old, new))
        diff = run(["git", "diff", "--no-color"], cwd=repo).stdout
        removed = 0
        cur = None
        line = 0
        for text in diff.splitlines():
            if text.startswith("--- a/"):
                cur = text[6:]
            elif text.startswith("@@"):
                line = int(re.match(r"@@ -(\d+)", text).group(1))
            elif text.startswith("-") and not text.startswith("---"):
                removed += 1
                who = run(["git", "blame", "-s", "-L", "%d,%d" % (line, line), "HEAD", "--", cur], cwd=repo).stdout
                if not who.startswith("^" + BASE):
                    return "%s: changes a line of ours: %s" % (sid, text)
                line += 1
            elif text.startswith(" "):
                line += 1
        if not removed:
            return "%s: changes no original line" % sid
        folder = os.path.join(SEEDED, sid)
        os.makedirs(folder, exist_ok=True)
        open(folder + "/patch.diff", "w").write(diff)
        open(folder + "/demo.py", "w").write(spec["demo"].lstrip("\n"))
        open(folder + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(folder + "/demo.sh", 0o755)
        json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(folder + "/meta.json", "w"), indent=1)
        good = demo("/repo", folder)
        bad = demo(repo, folder)
        if good.returncode != 0:
            return "%s: demo fails on the unchanged tree: %s" % (sid, good.stdout[-1500:])
        if bad.returncode == 0:
            return "%s: demo passes with the patch: %s" % (sid, bad.stdout[-800:])
        if spec.get("notest"):
            return "%s: ok (tests not run); demo: %s" % (sid, bad.stdout.strip()[-150:])
        r = stable(repo)
        if isinstance(r, list):
            return "%s: %s" % (sid, r)
        base, res = r
        lost = []
        names = base.get("stable") or base.get("passed") or base
        got = set(res.get("passed", []))
        for n in names:
            if n not in got:
                lost.append(n)
        if lost:
            return "%s: TESTS CATCH IT: %s" % (sid, lost)
        return "%s: ok; demo: %s" % (sid, bad.stdout.strip()[-150:])
    finally:
        shutil.rmtree(d)


def check(sid, tier="quick", seed="1"):
    folder = os.path.join(SEEDED, sid)
    meta = json.load(open(folder + "/meta.json"))
    d = scratch()
    try:
        p = run(["git", "apply", folder + "/patch.diff"], cwd=d + "/repo")
        if p.returncode:
            return "%s: does not apply: %s" % (sid, p.stdout)
        shutil.copytree(HERE, d + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "replays", "evidence"))
        p = run(["./check", meta["property"], "--tier", tier], cwd=d + "/verif", env=dict(os.environ, VERIF_REPO=d + "/repo", VERIF_SEED=seed))
        hit = re.search(r"VIOLATION property=%s .*" % meta["property"], p.stdout)
        msg = re.search(r"^facet .*", p.stdout, re.M)
        return "%s: %s %s exit %d: %s" % (sid, "caught" if hit and p.returncode == 1 else "MISSED", meta["property"], p.returncode, (msg.group(0) if msg else p.stdout[-200:])[:160])
    finally:
        shutil.rmtree(d)


def main():
    if sys.argv[1] == "make":
        sp = importlib.util.spec_from_file_location("spec", sys.argv[2])
        mod = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(mod)
        ids = sys.argv[3:] or list(mod.SEEDS)
        with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "6"))) as ex:
            for r in ex.map(lambda i: make(i, mod.SEEDS[i]), ids):
                print(r, flush=True)
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
        with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "1"))) as ex:
            for r in ex.map(lambda i: check(i, seed=os.environ.get("VERIF_SEED", "1")), ids):
                print(r, flush=True)


if __name__ == "__main__":
    main()
