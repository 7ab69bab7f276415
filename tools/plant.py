"""plant.py SPEC.py [ids]: confirm planted bugs in a scratch copy of /repo and write /verif/seeded/<id>/.

SPEC.py defines BUGS, a list of dict(id, prop, needs, breaks, edits=[(file, old, new[, which])], demo=source).
A bug is kept when the stable tests pass with it and its demo passes on the unchanged tree and fails with it.
"""
import json, os, shutil, subprocess, sys, runpy, pathlib

PY = "/opt/venv/bin/python"
SEED = pathlib.Path("/verif/seeded")
S = pathlib.Path("/tmp/plant_scratch")


def sh(cmd, cwd, timeout=600, **env):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout,
                          env=dict(os.environ, **env))


DEMO_SH = '''#!/bin/bash
# run with cwd /repo: exit 0 when the property holds for the demonstrated case, nonzero otherwise
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python "$here/demo.py"
'''


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = set(sys.argv[2:])
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None
    for b in bugs:
        if want and b["id"] not in want:
            continue
        if S.exists():
            shutil.rmtree("/tmp/plant_scratch")
        subprocess.run(["cp", "-a", "/repo", "/tmp/plant_scratch"], check=True)
        ok = True
        for e in b["edits"]:
            f, old, new = e[:3]
            which = e[3] if len(e) > 3 else None
            p = S / f
            t = p.read_text()
            n = t.count(old)
            if n == 0 or (n > 1 and which is None):
                print(b["id"], "EDIT", f, "occurrences:", n); ok = False; break
            if which in (None, 0) and n == 1:
                t = t.replace(old, new)
            elif which == "all":
                t = t.replace(old, new)
            else:
                i = -1
                for _ in range(which + 1):
                    i = t.index(old, i + 1)
                t = t[:i] + new + t[i + len(old):]
            p.write_text(t)
        if not ok:
            continue
        diff = sh("git diff", S).stdout
        d = pathlib.Path("/tmp/plant_new") / b["id"]
        if d.exists():
            shutil.rmtree(str(d))
        d.mkdir(parents=True)
        (d / "patch.diff").write_text(diff)
        (d / "demo.py").write_text(b["demo"].lstrip("\n"))
        (d / "demo.sh").write_text(DEMO_SH)
        os.chmod(d / "demo.sh", 0o755)
        (d / "meta.json").write_text(json.dumps(
            {"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
        r0 = sh(f"bash {d}/demo.sh", "/repo", 300)
        r1 = sh(f"bash {d}/demo.sh", S, 300)
        # the package is imported from the scratch copy by the tests through PYTHONPATH/rootdir
        t = sh(f"cd /tmp/plant_scratch && PYTHONPATH=/tmp/plant_scratch {PY} -m pytest -q -x -p no:cacheprovider tests 2>&1 | tail -4", S, 600)
        w = sh(f"cd /tmp/plant_scratch && PYTHONPATH=/tmp/plant_scratch {PY} -c 'import rkstiff;print(rkstiff.__file__)'", S).stdout.strip()
        good = r0.returncode == 0 and r1.returncode != 0 and " failed" not in t.stdout and "error" not in t.stdout and "passed" in t.stdout
        print(("KEPT " if good else "NOT  ") + b["id"], b["prop"], "demo unchanged:", r0.returncode, "patched:", r1.returncode,
              "tests:", t.stdout.strip().splitlines()[-1][:90], w if "plant_scratch" not in w else "")
        if not good:
            print("   ", (r0.stderr if r0.returncode else r1.stdout)[-300:], t.stdout[-400:] if "failed" in t.stdout else "")
        if good:
            dst = SEED / b["id"]
            if dst.exists():
                shutil.rmtree(str(dst))
            shutil.copytree(d, dst)
    if S.exists():
        shutil.rmtree("/tmp/plant_scratch")


main()
