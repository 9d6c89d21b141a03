"""mkseed.py ID < spec.json : plant a change in a scratch copy of /repo, confirm it (builds, stable tests pass,
demo passes without and fails with it) and keep it under seeded/ID.  Spec: property, needs, what_it_breaks,
edits [[file, old, new]], demo (Python source)."""
import json
import os
import shutil
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def plant(sid, spec, tests=True):
    d = "/tmp/seed_" + sid
    if os.path.exists(d):
        shutil.rmtree(d)
    subprocess.check_call(["cp", "-a", "/repo", d])
    try:
        subprocess.check_call(["git", "-C", d, "checkout", "-q", "--", "."])
        for f, a, b in spec["edits"]:
            p = os.path.join(d, f)
            s = open(p, encoding="utf-8", newline="").read()
            if "\r\n" in s:
                a, b = a.replace("\n", "\r\n"), b.replace("\n", "\r\n")
            assert s.count(a) == 1, (f, s.count(a), a)
            open(p, "w", encoding="utf-8", newline="").write(s.replace(a, b))
        diff = subprocess.check_output(["git", "-C", d, "diff"])
        out = os.path.join(V, "seeded", sid)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "wb").write(diff)
        open(os.path.join(out, "demo.py"), "w", encoding="utf-8").write(spec["demo"])
        open(os.path.join(out, "demo.sh"), "w").write('#!/bin/sh\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["what_it_breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1")
        chk = subprocess.run(["/opt/venv/bin/python", "-c", "import mappyfile;print(mappyfile.__file__)"], cwd=d, env=env,
                             capture_output=True, text=True).stdout
        assert d in chk, chk
        good = subprocess.run(["sh", out + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
        bad = subprocess.run(["sh", out + "/demo.sh"], cwd=d, env=env, capture_output=True, text=True)
        ok = good.returncode == 0 and bad.returncode != 0
        msg = "" if ok else "demo good=%s bad=%s %s %s" % (good.returncode, bad.returncode, good.stderr[-600:], bad.stderr[-300:])
        if ok and tests:
            stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-n", "8", "-p", "no:cacheprovider", "tests"],
                               cwd=d, env=env, capture_output=True, text=True)
            if r.returncode != 0:
                ok = False
                msg = "tests: " + r.stdout[-1500:]
        if not ok:
            shutil.rmtree(out)
        print(sid, "OK" if ok else "REJECTED " + msg)
        return ok
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    specs = json.load(sys.stdin) if len(sys.argv) < 2 else __import__("runpy").run_path(sys.argv[1])["SEEDS"]
    only = sys.argv[2:]
    for sid, spec in specs.items():
        if not only or sid in only:
            plant(sid, spec)
